// The gRPC transport (P38) against a stand-in for gRPC (shim/grpc): one
// transporter and the calls it makes; a whole tracer and its collector.
#include <google/protobuf/util/message_differencer.h>
#include <atomic>
#include <locale>
#include <mutex>
#include <set>
#include <thread>
#include "gen.hpp"
#include "lightstep-tracer-common/collector.grpc.pb.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/tracer.h"
#include "recorder/grpc_transporter.h"
#include "tracing.hpp"

using namespace lightstep;
typedef std::chrono::system_clock System;

namespace {
typedef std::function<grpc::Status(const grpc::ChannelInterface&,
                                   grpc::ClientContext&,
                                   const collector::ReportRequest&,
                                   collector::ReportResponse&)>
    Handler;
Handler* handler = nullptr;

struct Grouping : std::numpunct<char> {
  std::string do_grouping() const override { return "\3"; }
  char do_thousands_sep() const override { return ','; }
};
struct GlobalLocale {
  std::locale old;
  explicit GlobalLocale(bool grouped) {
    if (grouped)
      old = std::locale::global(std::locale{std::locale{}, new Grouping});
    set = grouped;
  }
  ~GlobalLocale() {
    if (set) std::locale::global(old);
  }
  bool set;
};

std::string gen_host(pbt::Case& c) {
  switch (c.draw(4)) {
    case 0: return "collector.lightstep.com";
    case 1: return "localhost";
    case 2: return "127.0.0." + std::to_string(c.range(1, 254));
    case 3: return "h" + std::string(c.range(0, 60), 'a') + ".example";
    default: return "dns:///x-" + std::to_string(c.range(0, 99999));
  }
}
uint32_t gen_port(pbt::Case& c) {
  static const uint32_t some[] = {443, 80, 1, 999, 1000, 8360, 65535, 50051};
  return c.boolean() ? c.pick(some) : static_cast<uint32_t>(c.range(1, 65535));
}
std::string gen_certs(pbt::Case& c) {
  if (c.boolean()) return "";
  std::string s = "-----BEGIN CERTIFICATE-----\n";
  size_t n = c.size(5000);
  for (size_t i = 0; i < n; ++i) s += i % 64 == 63 ? '\n' : 'A' + i % 26;
  return s + "\n-----END CERTIFICATE-----\n";
}

// what is wrong with the channel, given the options
std::string wrong_channel(const grpc::ChannelInterface& ch,
                          const LightStepTracerOptions& o) {
  std::string target = o.collector_host + ":" + std::to_string(o.collector_port);
  if (ch.target != target)
    return "the channel's target is \"" + ch.target + "\", not \"" + target + "\"";
  if (!ch.credentials) return "no credentials";
  if (ch.credentials->secure == o.collector_plaintext)
    return o.collector_plaintext ? "encrypted although plaintext was asked for"
                                 : "not encrypted";
  if (ch.credentials->secure &&
      ch.credentials->roots != o.ssl_root_certificates)
    return "root certificates: " + pbt::Case::quote(ch.credentials->roots);
  if (!ch.credentials->key.empty() || !ch.credentials->chain.empty())
    return "a client certificate";
  return "";
}

collector::ReportRequest gen_request(pbt::Case& c) {
  collector::ReportRequest r;
  r.mutable_reporter()->set_reporter_id(c.u64());
  r.mutable_auth()->set_access_token(gen::utf8(c, 20));
  int n = c.range(0, 5);
  for (int i = 0; i < n; ++i) {
    auto& s = *r.add_spans();
    s.set_operation_name(gen::utf8(c, 40));
    s.mutable_span_context()->set_trace_id(c.u64());
    s.set_duration_micros(c.u64());
  }
  if (c.boolean()) {
    auto& k = *r.mutable_internal_metrics()->add_counts();
    k.set_name("spans.dropped");
    k.set_int_value(c.range(0, 1000000));
  }
  r.set_timestamp_offset_micros(c.range(-5, 5));
  return r;
}
collector::ReportResponse gen_response(pbt::Case& c) {
  collector::ReportResponse r;
  int n = c.range(0, 2);
  for (int i = 0; i < n; ++i) r.add_commands()->set_disable(c.boolean());
  if (c.chance(1, 3)) r.add_errors(gen::utf8(c, 20));
  if (c.chance(1, 3)) r.add_warnings(gen::utf8(c, 20));
  if (c.chance(1, 3)) r.add_infos(gen::utf8(c, 20));
  if (c.boolean()) r.mutable_receive_timestamp()->set_seconds(c.range(0, 99));
  return r;
}
}  // namespace

namespace lightstep {
namespace collector {
grpc::Status CollectorCall(const grpc::ChannelInterface& channel,
                           grpc::ClientContext& context,
                           const ReportRequest& request,
                           ReportResponse& response) {
  return (*handler)(channel, context, request, response);
}
}  // namespace collector
}  // namespace lightstep

PROPERTY(grpc_transporter, p.check_memory = true;) {
  LightStepTracerOptions o;
  o.collector_host = gen_host(c);
  o.collector_port = gen_port(c);
  o.collector_plaintext = c.boolean();
  o.ssl_root_certificates = gen_certs(c);
  static const int64_t timeouts[] = {5000000000, 0, 1, 1000000, 60000000000,
                                     86400000000000, 1500};
  int64_t timeout = c.boolean() ? c.pick(timeouts)
                                : c.range(0, 1000000) * 1000000LL;
  o.report_timeout = std::chrono::duration_cast<System::duration>(
      std::chrono::nanoseconds{timeout});
  bool forever = c.chance(1, 12);  // as good as no limit
  if (forever) o.report_timeout = System::duration::max();
  bool grouped = c.chance(1, 4), verbose = c.boolean();
  c.note(o.collector_host, ":", o.collector_port,
         o.collector_plaintext ? " plaintext" : "", " timeout ", forever ? -1 : timeout,
         grouped ? " grouping locale" : "");
  std::string error;
  std::vector<std::pair<LogLevel, std::string>> logs;
  // what the collector does with the current call
  grpc::Status status;
  collector::ReportRequest request;
  collector::ReportResponse answer;
  System::time_point before;
  int calls = 0;
  auto set = [&](const std::string& e) {
    if (error.empty()) error = e;
  };
  Handler h = [&](const grpc::ChannelInterface& ch, grpc::ClientContext& ctx,
                  const collector::ReportRequest& r,
                  collector::ReportResponse& response) {
    ++calls;
    auto after = System::now();
    if (ctx.calls++) set("a client context was used for two calls");
    set(wrong_channel(ch, o));
    auto slack = std::chrono::milliseconds{1};
    if (!ctx.has_deadline)
      set("a call without a deadline may never end");
    else if (forever ? ctx.deadline() < after + std::chrono::hours{24 * 30}
                     : ctx.deadline() < before + o.report_timeout - slack ||
                           ctx.deadline() > after + o.report_timeout + slack)
      set("the deadline is not report_timeout from now");
    if (ctx.wait_for_ready) set("waits for a collector that is down");
    if (r.SerializeAsString() != request.SerializeAsString())
      set("the collector gets another report");
    if (status.ok()) response = answer;
    return status;
  };
  handler = &h;
  int ok_calls = 0, failed_calls = 0;
  {
    GlobalLocale locale{grouped};
    Logger logger{[&](LogLevel level, opentracing::string_view m) {
      logs.emplace_back(level, std::string{m.data(), m.size()});
    }};
    logger.set_level(verbose ? LogLevel::info : LogLevel::error);
    // the options need not outlive the call
    std::unique_ptr<LightStepTracerOptions> copy{new LightStepTracerOptions};
    copy->collector_host = o.collector_host;
    copy->collector_port = o.collector_port;
    copy->collector_plaintext = o.collector_plaintext;
    copy->ssl_root_certificates = o.ssl_root_certificates;
    copy->report_timeout = o.report_timeout;
    auto transporter = MakeGrpcTransporter(logger, *copy);
    copy.reset();
    int n = c.range(1, 8);
    for (int i = 0; i < n && error.empty(); ++i) {
      request = gen_request(c);
      answer = gen_response(c);
      static const char* const messages[] = {
          "Deadline Exceeded", "failed to connect to all addresses", "", "%s%n"};
      auto code = c.boolean() ? grpc::OK
                              : static_cast<grpc::StatusCode>(c.range(1, 16));
      std::string text = code ? std::string(c.pick(messages)) : "";
      status = grpc::Status{code, text};
      c.note(" ", code);
      collector::ReportResponse response;
      if (c.boolean()) response = gen_response(c);  // what it held before
      int seen = calls;
      size_t logged = logs.size();
      before = System::now();
      auto result = transporter->Send(request, response);
      set(calls == seen + 1 ? "" : "one report took " +
                                       std::to_string(calls - seen) + " calls");
      if (!error.empty()) break;
      if (code == grpc::OK) {
        ++ok_calls;
        if (!result) set("a report that arrived counts as failed");
        if (response.SerializeAsString() != answer.SerializeAsString())
          set("the response is not the collector's");
        if (logs.size() != logged) set("a success was logged");
      } else {
        ++failed_calls;
        if (result) {
          set("a failed call counts as a success");
          break;
        }
        bool found = false;
        for (size_t k = logged; k < logs.size(); ++k)
          found |= logs[k].first == LogLevel::error &&
                   logs[k].second.find(text) != std::string::npos;
        if (!found) set("the failure was not logged");
        std::errc want{};
        switch (code) {
          case grpc::CANCELLED: want = std::errc::operation_canceled; break;
          case grpc::DEADLINE_EXCEEDED: want = std::errc::timed_out; break;
          case grpc::RESOURCE_EXHAUSTED:
            want = std::errc::resource_unavailable_try_again;
            break;
          case grpc::UNIMPLEMENTED: want = std::errc::not_supported; break;
          case grpc::UNAVAILABLE: want = std::errc::network_down; break;
          default: break;
        }
        if (want != std::errc{} && result.error() != want)
          set("status " + std::to_string(code) + " became the error " +
              result.error().message());
      }
    }
  }
  handler = nullptr;
  c.check(error.empty(), error);
  if (ok_calls && failed_calls) c.nontrivial();
}

// A tracer that is given no transporter, and its collector.
PROPERTY(grpc_tracer, p.concurrent = true; p.hang_seconds = 60;) {
  struct World {
    std::mutex mutex;
    std::vector<std::string> spans;
    int64_t drops = 0, sends = 0, failures = 0, timeouts = 0;
    std::vector<int> script;
    bool disabled = false, disable_next = false, quiet = false;
    uint64_t reporter = 0;
    std::string error;
  } w;
  auto set = [&](const std::string& e) {
    if (w.error.empty()) w.error = e;
  };
  LightStepTracerOptions o;
  o.collector_host = gen_host(c);
  o.collector_port = gen_port(c);
  o.collector_plaintext = c.boolean();
  o.ssl_root_certificates = gen_certs(c);
  o.report_timeout = std::chrono::milliseconds{c.range(1, 8)};
  o.reporting_period = std::chrono::milliseconds{c.range(1, 3)};
  o.access_token = gen::utf8(c, 10);
  o.tags["tag"] = "value";
  size_t capacity = c.range(1, 60);
  o.max_buffered_spans = capacity;
  o.logger_sink = [](LogLevel, opentracing::string_view) {};
  LightStepTracerOptions expected;
  expected.collector_host = o.collector_host;
  expected.collector_port = o.collector_port;
  expected.collector_plaintext = o.collector_plaintext;
  expected.ssl_root_certificates = o.ssl_root_certificates;
  auto timeout = o.report_timeout;
  std::string token = o.access_token;
  int steps = c.range(1, 10);
  for (int i = 0; i < steps; ++i)
    w.script.push_back(c.weighted({5, 2, 1, 1, 1}));
  int threads = c.range(1, 3), per = c.range(5, 120);
  bool disable = c.chance(1, 5), grouped = c.chance(1, 6);
  c.note(threads, " threads x ", per, ", capacity ", capacity, " timeout ",
         timeout.count(), " script ", w.script.size(), grouped ? " grouped" : "");
  Handler h = [&](const grpc::ChannelInterface& ch, grpc::ClientContext& ctx,
                  const collector::ReportRequest& r,
                  collector::ReportResponse& response) -> grpc::Status {
    std::unique_lock<std::mutex> l{w.mutex};
    set(wrong_channel(ch, expected));
    if (w.disabled) set("a report after the collector disabled the tracer");
    if (r.spans_size() == 0) set("a report without spans");
    if (r.auth().access_token() != token) set("wrong access token");
    if (w.reporter && w.reporter != r.reporter().reporter_id())
      set("the reporter id changed");
    w.reporter = r.reporter().reporter_id();
    int what = w.quiet ? 0 : w.script[w.sends % w.script.size()];
    ++w.sends;
    if (!ctx.has_deadline) {
      set("a call without a deadline may never end");
      return {};
    }
    if (what == 2 || (what == 3 && ctx.wait_for_ready)) {  // never answers
      ++w.timeouts;
      ++w.failures;
      auto d = ctx.deadline();
      l.unlock();
      std::this_thread::sleep_until(d);
      return {grpc::DEADLINE_EXCEEDED, "Deadline Exceeded"};
    }
    if (what == 1 || what == 3) {
      ++w.failures;
      return {what == 3 ? grpc::UNAVAILABLE
                        : static_cast<grpc::StatusCode>(1 + w.sends % 16),
              "no"};
    }
    if (what == 4) {  // slow, but answers if there is time
      auto d = ctx.deadline();
      l.unlock();
      auto t = System::now() + std::chrono::microseconds{500};
      std::this_thread::sleep_until(std::min(t, d));
      l.lock();
      if (d < t) {
        ++w.failures;
        return {grpc::DEADLINE_EXCEEDED, "Deadline Exceeded"};
      }
    }
    for (auto& s : r.spans()) w.spans.push_back(s.operation_name());
    for (auto& k : r.internal_metrics().counts())
      if (k.name() == "spans.dropped") w.drops += k.int_value();
    response.Clear();
    if (w.disable_next) {
      response.add_commands()->set_disable(true);
      w.disabled = true;
    }
    return {};
  };
  handler = &h;
  bool made = false, flushed = true;
  {
    GlobalLocale locale{grouped};
    auto tracer = MakeLightStepTracer(std::move(o));
    made = tracer != nullptr;
    if (made) {
      std::vector<std::thread> ts;
      for (int t = 0; t < threads; ++t) {
        ts.emplace_back([&, t] {
          for (int i = 0; i < per; ++i) {
            auto span = tracer->StartSpan(std::to_string(t) + ":" +
                                          std::to_string(i));
            span->Finish();
            if (i % 32 == 31) tracer->FlushWithTimeout(std::chrono::seconds{1});
          }
        });
      }
      for (auto& t : ts) t.join();
      flushed &= tracer->FlushWithTimeout(std::chrono::seconds{30});
      w.mutex.lock();
      w.quiet = true;
      w.mutex.unlock();
      // one more span carries the last drops
      tracer->StartSpan("last")->Finish();
      flushed &= tracer->FlushWithTimeout(std::chrono::seconds{30});
      if (disable) {
        w.mutex.lock();
        w.disable_next = true;
        w.mutex.unlock();
        tracer->StartSpan("end")->Finish();
        tracer->FlushWithTimeout(std::chrono::seconds{30});
        tracer->StartSpan("never")->Finish();
        tracer->FlushWithTimeout(std::chrono::milliseconds{5});
      }
    }
  }
  handler = nullptr;
  c.check(made, "no tracer was made");
  c.check(w.error.empty(), w.error);
  c.check(flushed, "a flush failed");
  std::set<std::string> seen;
  std::vector<int> last(threads, -1);
  int64_t delivered = 0;
  for (auto& s : w.spans) {
    c.check(seen.insert(s).second, "span ", s, " delivered twice");
    c.check(s != "never", "a span sent after the tracer was disabled");
    if (s == "end") continue;
    ++delivered;
    if (s == "last") continue;
    int t = atoi(s.c_str()), i = atoi(s.c_str() + s.find(':') + 1);
    c.check(i > last[t], "span ", s, " out of order");
    last[t] = i;
  }
  c.check(seen.count("last"), "the last span is missing");
  c.equal(delivered + w.drops, static_cast<int64_t>(threads) * per + 1,
          "spans delivered or reported as dropped");
  c.classify("timed out", w.timeouts > 0);
  c.classify("disabled", w.disabled);
  if (w.failures && w.sends > 3) c.nontrivial();
}

