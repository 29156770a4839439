HEAD = r'''
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <lightstep/tracer.h>
#include <lightstep/transporter.h>
#include <opentracing/tracer.h>
#include "lightstep-tracer-common/collector.pb.h"
using namespace lightstep;
struct Out : AsyncTransporter {
  std::vector<collector::ReportRequest>* reports;
  explicit Out(std::vector<collector::ReportRequest>* r) : reports(r) {}
  bool fail = false;
  void Send(std::unique_ptr<BufferChain>&& m, Callback& cb) noexcept override {
    std::string s(m->num_bytes(), '\0');
    m->CopyOut(&s[0], s.size());
    if (fail) { cb.OnFailure(*m); return; }
    reports->emplace_back();
    reports->back().ParseFromString(s);
    cb.OnSuccess(*m);
  }
};
typedef std::vector<std::pair<std::string, std::string>> Headers;
struct Writer : opentracing::TextMapWriter {
  mutable Headers h;
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override {
    h.emplace_back(std::string(k.data(), k.size()), std::string(v.data(), v.size()));
    return {};
  }
};
struct Reader : opentracing::TextMapReader {
  Headers h;
  explicit Reader(Headers x) : h(std::move(x)) {}
  opentracing::expected<void> ForeachKey(
      std::function<opentracing::expected<void>(opentracing::string_view, opentracing::string_view)> f) const override {
    for (auto& x : h) {
      auto r = f(x.first, x.second);
      if (!r) return r;
    }
    return {};
  }
};
static std::vector<collector::ReportRequest> reports;
static Out* out;
static std::shared_ptr<LightStepTracer> tracer(LightStepTracerOptions o = {}) {
  o.access_token = "token";
  o.use_thread = false;
  o.logger_sink = [](LogLevel, opentracing::string_view) {};
  out = new Out{&reports};
  o.transporter.reset(out);
  return MakeLightStepTracer(std::move(o));
}
'''

seed(id='flat-map-last-key', property='P12', kind='scope',
     edits=[('src/common/flat_map.h',
             '  iterator insert_or_assign(Key&& key, Value&& value) {\n    auto iter = this->lower_bound(key);\n',
             '  iterator insert_or_assign(Key&& key, Value&& value) {\n    auto iter = in_order(key) ? data_.cend() : this->lower_bound(key);\n'),
            ('src/common/flat_map.h',
             '  MapImpl data_;\n\n',
             '  MapImpl data_;\n\n  // Keys often come in order: they go to the end without a search.\n'
             '  bool in_order(const Key& key) const noexcept {\n'
             '    return data_.size() > 4 && !Comp{}(key, data_.back().first);\n  }\n\n')],
     needs='assigning the greatest key of a map of five or more keys a second time',
     breaks='The key is in the map twice and a lookup finds the value that was replaced.',
     demo=r'''
#include <cstdio>
#include <string>
#include "common/flat_map.h"
int main() {
  lightstep::FlatMap<std::string, std::string> m;
  for (const char* k : {"a", "b", "c", "d", "e"}) m.insert_or_assign(k, "1");
  m.insert_or_assign("e", "3");
  auto i = m.find("e");
  printf("%s, %zu entries\n", i == m.end() ? "none" : i->second.c_str(), m.as_vector().size());
  return i != m.end() && i->second == "3" && m.as_vector().size() == 5 ? 0 : 1;
}
''')

seed(id='duration-32-bit', property='P13', kind='tracer',
     edits=[('src/tracer/serialization.cpp',
             '  auto elapse = static_cast<uint64_t>(\n', '  auto elapse = static_cast<uint32_t>(\n')],
     needs='a span that lasts longer than 71 minutes',
     breaks='Its duration is reported modulo 2^32 microseconds.',
     demo=HEAD + r'''
int main() {
  auto t = tracer();
  auto start = std::chrono::steady_clock::now();
  opentracing::StartSpanOptions begin;
  begin.start_steady_timestamp = start;
  opentracing::FinishSpanOptions end;
  end.finish_steady_timestamp = start + std::chrono::hours(2);
  auto span = t->StartSpanWithOptions("a", begin);
  span->FinishWithOptions(end);
  t->Flush();
  auto d = reports[0].spans(0).duration_micros();
  printf("%llu\n", static_cast<unsigned long long>(d));
  return d == 7200ull * 1000000 ? 0 : 1;
}
''')

seed(id='log-json-by-field', property='P13', kind='tracer',
     edits=[('src/tracer/serialization.cpp',
             '    if (static_cast<size_t>(json_counter) > json_values.size()) {\n      json_values.emplace_back(std::move(json));\n',
             '    if (json_counter != 0) {\n      json_values.emplace_back(std::move(json));\n')],
     needs='a log with two compound values and a scalar value between them',
     breaks='The second compound value is written as an empty string, of a length other than announced, so the span does not parse.',
     demo=HEAD + r'''
int main() {
  auto t = tracer();
  auto span = t->StartSpan("a");
  opentracing::Values x{1, 2}, y{3, 4};
  span->Log({{"x", x}, {"k", 1}, {"y", y}});
  span->Finish();
  t->Flush();
  if (reports.empty() || reports[0].spans_size() != 1 || reports[0].spans(0).logs_size() != 1) return 1;
  auto& log = reports[0].spans(0).logs(0);
  if (log.fields_size() != 3) return 1;
  printf("%s %s\n", log.fields(0).json_value().c_str(), log.fields(2).json_value().c_str());
  return log.fields(0).json_value() == "[1,2]" && log.fields(2).json_value() == "[3,4]" ? 0 : 1;
}
''')

seed(id='baggage-key-leftover', property='P15', kind='tracer',
     edits=[('src/tracer/propagation/baggage_propagator.cpp',
             '''      baggage_key.replace(std::begin(baggage_key) + baggage_prefix.size(),
                          std::end(baggage_key), baggage_item.first);
''', '''      baggage_key.replace(baggage_prefix.size(), baggage_item.first.size(),
                          baggage_item.first);
''')],
     needs='two baggage items, the one with the shorter key after the other',
     breaks='The shorter key is sent with the end of the longer one attached to it.',
     demo=HEAD + r'''
int main() {
  auto t = tracer();
  auto span = t->StartSpan("a");
  span->SetBaggageItem("abcdef", "1");
  span->SetBaggageItem("b", "2");
  Writer w;
  t->Inject(span->context(), w);
  auto c = t->Extract(Reader{w.h});
  if (!c || !*c) return 1;
  std::map<std::string, std::string> m;
  (*c)->ForeachBaggageItem([&](const std::string& k, const std::string& v) {
    m[k] = v;
    printf("%s=%s\n", k.c_str(), v.c_str());
    return true;
  });
  return m == std::map<std::string, std::string>{{"abcdef", "1"}, {"b", "2"}} ? 0 : 1;
}
''')

seed(id='cloud-overflow-accepted', property='P16', kind='tracer',
     edits=[('src/tracer/propagation/cloud_trace_propagator.cpp',
             '''  errno = 0;
  trace_context.parent_id = std::strtoull(parent_id.data(), nullptr, 10);
  if (errno == ERANGE) {
    return opentracing::make_unexpected(
        std::make_error_code(std::errc::result_out_of_range));
  }
''', '''  trace_context.parent_id = std::strtoull(parent_id.data(), nullptr, 10);
''')],
     needs='an x-cloud-trace-context header whose span id is of twenty digits and above 2^64',
     breaks='The header is accepted with a span id it does not contain.',
     demo=HEAD + r'''
int main() {
  LightStepTracerOptions o;
  o.propagation_modes = {PropagationMode::cloud_trace};
  auto t = tracer(std::move(o));
  auto ok = t->Extract(Reader{{{"x-cloud-trace-context",
      "0123456789abcdef0123456789abcdef/18446744073709551615;o=1"}}});
  auto bad = t->Extract(Reader{{{"x-cloud-trace-context",
      "0123456789abcdef0123456789abcdef/18446744073709551616;o=1"}}});
  printf("%d %d\n", static_cast<bool>(ok), static_cast<bool>(bad));
  return ok && *ok && !bad ? 0 : 1;
}
''')

seed(id='trailing-state-header', property='P17', kind='tracer',
     edits=[('src/tracer/propagation/multiheader_propagator.cpp',
             '''  sampled = true;
  int trace_id_count = 0;
  int span_id_count = 0;
''', '''  int trace_id_count = 0;
  int span_id_count = 0;
'''), ('src/tracer/propagation/multiheader_propagator.cpp',
       '''            ++trace_id_count;
          } else if''', '''            ++trace_id_count;
            sampled = true;  // unless there's a header that says otherwise
          } else if''')],
     needs='a sampled header that comes before the trace id header',
     breaks='The decision not to sample is overridden: what is extracted depends on the order of the headers.',
     demo=HEAD + r'''
int main() {
  auto t = tracer();
  Headers h{{"ot-tracer-sampled", "false"}, {"ot-tracer-traceid", "1f"}, {"ot-tracer-spanid", "2e"}};
  for (int turn = 0; turn < 3; ++turn) {
    auto c = t->Extract(Reader{h});
    if (!c || !*c) return 1;
    Writer w;
    t->Inject(**c, w);
    for (auto& x : w.h) {
      if (x.first == "ot-tracer-sampled") {
        printf("%s\n", x.second.c_str());
        if (x.second != "0" && x.second != "false") return 1;
      }
    }
    std::rotate(h.begin(), h.begin() + 1, h.end());
  }
  return 0;
}
''')

seed(id='invalid-second-reference', property='P18', kind='tracer',
     edits=[('src/tracer/span.cpp',
             '    if (reference_count == 1 && valid_reference) {\n',
             '    if (reference_count == 1) {\n'),
            ('src/tracer/span.cpp',
             '    uint64_t trace_id_high;\n    uint64_t trace_id;\n    auto valid',
             '    uint64_t trace_id_high = 0;\n    uint64_t trace_id = 0;\n    auto valid')],
     needs="a reference to a context of another tracer, or to none, after exactly one valid reference",
     breaks='The span is not part of the trace of its parent: its trace id is zero.',
     demo=HEAD + r'''
int main() {
  auto t = tracer();
  auto a = t->StartSpan("a");
  a->Finish();
  opentracing::StartSpanOptions o;
  o.references.emplace_back(opentracing::SpanReferenceType::ChildOfRef, &a->context());
  o.references.emplace_back(opentracing::SpanReferenceType::FollowsFromRef, nullptr);
  auto b = t->StartSpanWithOptions("b", o);
  b->Finish();
  t->Flush();
  auto& s = reports[0].spans();
  printf("%llx %llx\n", (unsigned long long)s.Get(0).span_context().trace_id(),
         (unsigned long long)s.Get(1).span_context().trace_id());
  return s.Get(0).span_context().trace_id() == s.Get(1).span_context().trace_id() ? 0 : 1;
}
''')

seed(id='failed-count-only-report', property='P19', kind='tracer',
     edits=[('src/recorder/manual_recorder.cpp',
             '''  metrics_.OnSpansDropped(report_request->num_spans());
  metrics_.UnconsumeDroppedSpans(report_request->num_dropped_spans());
''', '''  if (report_request->num_spans() == 0) {
    return;
  }
  metrics_.OnSpansDropped(report_request->num_spans());
  metrics_.UnconsumeDroppedSpans(report_request->num_dropped_spans());
''')],
     needs='a report that holds no spans, only the count of dropped ones, and that fails',
     breaks='The count is lost: the spans dropped before are never reported.',
     demo=HEAD + r'''
int main() {
  auto t = tracer();
  t->StartSpan("a")->Finish();
  out->fail = true;
  t->Flush();  // one span is dropped
  t->Flush();  // so is the report of that
  out->fail = false;
  t->Flush();
  long long n = -1;
  if (!reports.empty() && reports[0].internal_metrics().counts_size() == 1)
    n = reports[0].internal_metrics().counts(0).int_value();
  printf("%zu reports, %lld dropped\n", reports.size(), n);
  return n == 1 ? 0 : 1;
}
''')

seed(id='auto-drops-in-flight', property='P20', kind='tracer',
     edits=[('src/recorder/auto_recorder.cpp',
             '      dropped_spans_ += save_dropped + save_pending;\n',
             '      dropped_spans_ = save_dropped + save_pending;\n')],
     needs='spans dropped because the buffer is full while a report that is going to fail is under way',
     breaks='Those are never reported as dropped.',
     demo=HEAD + r'''
#include <atomic>
#include <condition_variable>
#include <mutex>
struct Sync : SyncTransporter {
  std::mutex m;
  std::condition_variable cv;
  int sends = 0;
  bool go = false;
  std::vector<collector::ReportRequest> got;
  opentracing::expected<void> Send(const google::protobuf::Message& r, google::protobuf::Message&) override {
    std::unique_lock<std::mutex> lock{m};
    ++sends;
    cv.notify_all();
    if (sends == 1) {
      cv.wait(lock, [&] { return go; });
      return opentracing::make_unexpected(std::make_error_code(std::errc::network_down));
    }
    got.emplace_back();
    got.back().CopyFrom(r);
    return {};
  }
};
int main() {
  LightStepTracerOptions o;
  o.access_token = "token";
  o.max_buffered_spans = size_t{2};
  o.reporting_period = std::chrono::milliseconds{20};
  o.logger_sink = [](LogLevel, opentracing::string_view) {};
  auto s = new Sync;
  o.transporter.reset(s);
  auto t = MakeLightStepTracer(std::move(o));
  t->StartSpan("a")->Finish();
  {
    std::unique_lock<std::mutex> lock{s->m};
    s->cv.wait(lock, [&] { return s->sends == 1; });
  }
  for (int i = 0; i < 5; ++i) t->StartSpan("b")->Finish();  // 2 fit, 3 do not
  {
    std::lock_guard<std::mutex> lock{s->m};
    s->go = true;
    s->cv.notify_all();
  }
  t->Flush();
  t->StartSpan("c")->Finish();
  t->Flush();
  std::lock_guard<std::mutex> lock{s->m};
  long long dropped = 0, spans = 0;
  for (auto& r : s->got) {
    spans += r.spans_size();
    for (auto& c : r.internal_metrics().counts()) dropped += c.int_value();
  }
  printf("%lld spans, %lld dropped\n", spans, dropped);
  return spans == 3 && dropped == 4 ? 0 : 1;
}
''')

seed(id='legacy-two-failures', property='P21', kind='tracer',
     edits=[('src/recorder/legacy_manual_recorder.cpp',
             '''  dropped_spans_ += saved_dropped_spans_ + saved_pending_spans_;
  logger_.Error("Failed to send report: ", error.message());
''', '''  dropped_spans_ += saved_pending_spans_;
  logger_.Error("Failed to send report: ", error.message());
''')],
     needs='two reports in a row that fail',
     breaks='What the first of them lost is never reported as dropped.',
     demo=HEAD + r'''
struct Legacy : LegacyAsyncTransporter {
  int sends = 0;
  collector::ReportRequest last;
  void Send(const google::protobuf::Message& r, google::protobuf::Message&, Callback& cb) override {
    if (++sends <= 2) {
      cb.OnFailure(std::make_error_code(std::errc::network_down));
    } else {
      last.CopyFrom(r);
      cb.OnSuccess();
    }
  }
};
int main() {
  LightStepTracerOptions o;
  o.access_token = "token";
  o.use_thread = false;
  o.logger_sink = [](LogLevel, opentracing::string_view) {};
  auto l = new Legacy;
  o.transporter.reset(l);
  auto t = MakeLightStepTracer(std::move(o));
  for (int i = 0; i < 3; ++i) {
    t->StartSpan("a")->Finish();
    t->Flush();
  }
  long long n = 0;
  for (auto& c : l->last.internal_metrics().counts()) n += c.int_value();
  printf("%d sends, %lld dropped\n", l->sends, n);
  return n == 2 ? 0 : 1;
}
''')

STREAM = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include "common/report_request_framing.h"
#include "common/chunked_http_framing.h"
#include "recorder/stream_recorder/connection_stream.h"
using namespace lightstep;
static std::string all(std::initializer_list<FragmentInputStream*> streams, size_t limit) {
  std::string s;
  for (auto stream : streams)
    stream->ForEachFragment([&](void* p, int n) {
      s.append(static_cast<char*>(p), n);
      return true;
    });
  if (s.size() > limit) s.resize(limit);
  Consume(streams, static_cast<int>(s.size()));
  return s;
}
static std::unique_ptr<ChainedStream> span(const char* text) {
  std::unique_ptr<ChainedStream> r{new ChainedStream{}};
  void* p; int n;
  r->Next(&p, &n);
  memcpy(p, text, strlen(text));
  r->BackUp(n - static_cast<int>(strlen(text)));
  r->CloseOutput();
  return r;
}
'''

seed(id='terminal-before-header', property='P35', kind='tracer',
     edits=[('src/recorder/stream_recorder/connection_stream.cpp',
             '''  if (span_remnant_ == nullptr) {
    return writer({&header_stream_, &terminal_stream_});
  }
''', '''  if (span_remnant_ == nullptr) {
    return writer({&terminal_stream_});
  }
''')],
     needs='a stream that is shut down before its request header was written completely',
     breaks='The satellite receives the end of a request whose beginning it did not get.',
     demo=STREAM + r'''
int main() {
  MetricsObserver observer;
  MetricsTracker metrics{observer};
  CircularBuffer<ChainedStream> buffer{10};
  SpanStream spans{buffer, metrics};
  ConnectionStream c{MakeFragment("Host:h\r\n"), MakeFragment("header"), spans};
  std::string sent;
  auto write = [&](size_t limit) {
    return [&, limit](std::initializer_list<FragmentInputStream*> s) {
      auto x = all(s, limit);
      sent += x;
      return x.size() < limit;
    };
  };
  c.Flush(write(30));
  c.Shutdown();
  c.Flush(write(100000));
  printf("%s\n", sent.c_str());
  return sent.find("header") != std::string::npos ? 0 : 1;
}
''')

seed(id='parser-reuse', property='P24', kind='tracer',
     edits=[('src/recorder/stream_recorder/status_line_parser.cpp',
             '''void StatusLineParser::Reset() noexcept {
  line_.clear();
  complete_ = false;
''', '''void StatusLineParser::Reset() noexcept {
  if (complete_) {
    line_.clear();
  }
  complete_ = false;
''')],
     needs='a response cut off inside its status line, and then another one',
     breaks='The next status line is attached to the piece of the former: the status is wrong or not found.',
     demo=r'''
#include <cstdio>
#include "recorder/stream_recorder/status_line_parser.h"
using namespace lightstep;
int main() {
  StatusLineParser p;
  p.Parse("HTTP/1.1 50");
  p.Reset();
  p.Parse("HTTP/1.1 200 OK\r\n");
  printf("%d %d\n", p.completed(), p.completed() ? p.status_code() : -1);
  return p.completed() && p.status_code() == 200 ? 0 : 1;
}
''')

seed(id='port-65535', property='P26', kind='tracer',
     edits=[('src/tracer/json_options.cpp',
             '    if (port > std::numeric_limits<uint16_t>::max()) {\n',
             '    if (port >= std::numeric_limits<uint16_t>::max()) {\n')],
     needs='a satellite endpoint with the highest port number',
     breaks='A valid configuration is refused.',
     demo=r'''
#include <cstdio>
#include "tracer/json_options.h"
using namespace lightstep;
int main() {
  std::string error;
  auto o = MakeTracerOptions(
      R"({"component_name": "c", "access_token": "t", "satellite_endpoints": [{"host": "h", "port": 65535}]})", error);
  printf("%d %s\n", static_cast<bool>(o), error.c_str());
  return o && o->satellite_endpoints.size() == 1 && o->satellite_endpoints[0].second == 65535 ? 0 : 1;
}
''')

seed(id='hex-leading-zeros-low', property='P27', kind='tracer',
     edits=[('src/common/hex_conversion.cpp',
             '''  if (length > 2 * Num64BitHexDigits) {
''', '''  if (static_cast<size_t>(std::distance(first, last)) > 2 * Num64BitHexDigits) {
''')],
     needs='a 128-bit number with leading zeros that make it longer than 32 digits',
     breaks='A number that fits is refused as too large.',
     demo=r'''
#include <cstdio>
#include "common/hex_conversion.h"
using namespace lightstep;
int main() {
  uint64_t h = 0, l = 0;
  auto r = HexToUint128("0000000123456789abcdef0123456789abcdef", h, l);
  printf("%d %llx %llx\n", static_cast<bool>(r), (unsigned long long)h, (unsigned long long)l);
  return r && h == 0x123456789abcdefull && l == 0x123456789abcdefull ? 0 : 1;
}
''')

seed(id='correlated-round-robin', property='P25', kind='tracer',
     edits=[('src/recorder/stream_recorder/satellite_endpoint_manager.cpp',
             '        ip_addresses[host_manager.address_index++ % ip_addresses.size()];\n',
             '        ip_addresses[(endpoint_index_ - 1) % ip_addresses.size()];\n')],
     needs='a number of endpoints that shares a factor with the number of addresses of a host',
     breaks='Some of the addresses of that host are never used.',
     demo=r'''
#include <cstdio>
#include <set>
#include <string>
#include <sstream>
#include "recorder/stream_recorder/satellite_endpoint_manager.h"
using namespace lightstep;
struct Two : DnsResolution {
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override {
    IpAddress a{"10.0.0.1"}, b{"10.0.0.2"};
    return f(a) && f(b);
  }
};
struct R : DnsResolver {
  void Resolve(const char*, int, DnsResolutionCallback& cb) noexcept override { cb.OnDnsResolution(Two{}, {}); }
};
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) {
  return std::unique_ptr<DnsResolver>{new R};
}
}
int main() {
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  EventBase base;
  LightStepTracerOptions o;
  o.satellite_endpoints = {{"one", 1}, {"two", 2}};
  StreamRecorderOptions ro;
  SatelliteEndpointManager m{logger, base, o, ro, [] {}};
  m.Start();
  std::set<std::string> used;
  for (int i = 0; i < 40; ++i) {
    std::ostringstream s;
    auto e = m.RequestEndpoint();
    s << e.second << ' ' << e.first;
    used.insert(s.str());
  }
  printf("%zu combinations\n", used.size());
  return used.size() == 4 ? 0 : 1;
}
''', skip='-e ares_dns_resolver')

