// Running out of memory inside the tracer (P37): allocations that fail at
// generated points of generated histories of calls.
#include "oom.hpp"

#include <fcntl.h>
#include <lightstep/binary_carrier.h>
#include <opentracing/dynamic_load.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <mutex>
#include <google/protobuf/util/json_util.h>

#include <set>
#include <sstream>

#include "gen.hpp"
#include "tracer/lightstep_tracer_factory.h"
#include "tracing.hpp"

using namespace lightstep;
using opentracing::Value;
using tracing::Headers;
typedef std::map<std::string, std::string> Map;

namespace {
struct Plan {
  int64_t at, count;
};
// Mostly no fault; otherwise one, several or all allocations from some point.
Plan plan(pbt::Case& c, int64_t most, unsigned one_in = 2) {
  if (!c.chance(1, one_in)) return {-1, 0};
  Plan p;
  p.at = c.range(0, c.boolean() ? std::min<int64_t>(most, 4) : most);
  switch (c.weighted({4, 2, 2})) {
    case 0:
      p.count = 1;
      break;
    case 1:
      p.count = c.range(2, 5);
      break;
    default:
      p.count = 1 << 30;
  }
  return p;
}

struct Observer : MetricsObserver {
  std::atomic<int> sent{0}, dropped{0}, flushes{0};
  std::function<void()> on_flush;
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
  void OnFlush() noexcept override {
    ++flushes;
    if (on_flush) on_flush();
  }
};

// What becomes of the reports: those that fail are lost.
struct Outcomes {
  std::vector<bool> fails;
  size_t next = 0;
  int64_t lost_spans = 0;
  bool fail() { return next < fails.size() && fails[next++]; }
};
class Manual : public AsyncTransporter {
 public:
  Manual(std::shared_ptr<tracing::Sink> s, std::shared_ptr<Outcomes> o)
      : sink(std::move(s)), outcomes(std::move(o)) {}
  void Send(std::unique_ptr<BufferChain>&& m, Callback& cb) noexcept override {
    auto message = std::move(m);
    bool fails = outcomes->fail();
    {
      oom::Pause p;
      sink->accept(*message);
      if (fails) {
        outcomes->lost_spans += sink->reports.back().spans_size();
        sink->reports.pop_back();
      }
    }
    if (fails)
      cb.OnFailure(*message);
    else
      cb.OnSuccess(*message);
  }
  std::shared_ptr<tracing::Sink> sink;
  std::shared_ptr<Outcomes> outcomes;
};
class Legacy : public LegacyAsyncTransporter {
 public:
  Legacy(std::shared_ptr<tracing::Sink> s, std::shared_ptr<Outcomes> o)
      : sink(std::move(s)), outcomes(std::move(o)) {}
  void Send(const google::protobuf::Message& request,
            google::protobuf::Message& response, Callback& cb) override {
    bool fails = outcomes->fail();
    {
      oom::Pause p;
      sink->reports.emplace_back();
      if (!sink->reports.back().ParseFromString(request.SerializeAsString()))
        sink->error = "a report does not parse";
      response.Clear();
      if (fails) {
        outcomes->lost_spans += sink->reports.back().spans_size();
        sink->reports.pop_back();
      }
    }
    if (fails)
      cb.OnFailure(std::make_error_code(std::errc::network_unreachable));
    else
      cb.OnSuccess();
  }
  std::shared_ptr<tracing::Sink> sink;
  std::shared_ptr<Outcomes> outcomes;
};

// Carriers whose own allocations do not fail.
template <class Base>
struct Writer : Base {
  opentracing::expected<void> Set(opentracing::string_view k,
                                  opentracing::string_view v) const override {
    oom::Pause p;
    return Base::Set(k, v);
  }
};
template <class Base>
struct Reader : Base {
  using Base::Base;
  opentracing::expected<opentracing::string_view> LookupKey(
      opentracing::string_view k) const override {
    oom::Pause p;
    return Base::LookupKey(k);
  }
};

struct Item {
  std::string key;
  Value value;
  bool sure;
};
struct SpanM {
  std::unique_ptr<opentracing::Span> span;
  uint64_t id = 0, trace = 0;
  std::set<std::string> names;
  std::vector<Item> tags, logs;
  Map baggage, sent;
  bool finished = false, finish_may_fail = false, hit = false;
};

std::string text(pbt::Case& c) {
  if (c.chance(1, 4)) {
    std::string s(c.chance(1, 6) ? c.range(1000, 9000) : c.range(10, 700), 'x');
    for (size_t i = 0; i < s.size(); ++i)
      s[i] = static_cast<char>('a' + i % 26);
    return s;
  }
  return gen::utf8(c, 40);
}
Value any_value(pbt::Case& c, gen::Holder& h) {
  if (c.chance(1, 4)) return Value{text(c)};
  return gen::value(c, h, c.range(0, 2));
}

// The items that got through are as they were given; the others are not there.
template <class Reported, class Match>
void check_items(pbt::Case& c, const Reported& got,
                 const std::vector<Item>& want, const std::string& what,
                 Match match) {
  size_t j = 0;
  for (int i = 0; i < got.size(); ++i) {
    std::string e = "more than were given";
    while (j < want.size()) {
      auto& w = want[j++];
      e = match(got.Get(i), w);
      if (e.empty()) break;
      c.check(!w.sure, what, " ", j - 1, ": ", e);
    }
    c.check(e.empty(), what, " ", i, " of the report: ", e);
  }
  for (; j < want.size(); ++j)
    c.check(!want[j].sure, what, " ", j, " is missing");
}

bool same(const opentracing::SpanContext& a,
          const opentracing::SpanContext& b) {
  return tracing::ctx(a) == tracing::ctx(b);
}
}  // namespace

PROPERTY(oom_spans) {
  const auto no_memory = std::make_error_code(std::errc::not_enough_memory);
  gen::Holder h;
  bool legacy = c.chance(1, 3);
  auto sink = std::make_shared<tracing::Sink>();
  auto* observer = new Observer;
  LightStepTracerOptions options;
  options.access_token = "token";
  options.use_thread = false;
  options.metrics_observer.reset(observer);
  options.logger_sink = [sink](LogLevel l, opentracing::string_view m) {
    oom::Pause p;
    sink->logs.emplace_back(l, std::string(m.data(), m.size()));
  };
  static const PropagationMode Modes[] = {
      PropagationMode::lightstep, PropagationMode::b3, PropagationMode::envoy,
      PropagationMode::trace_context, PropagationMode::cloud_trace};
  for (int i = c.range(1, 2); i > 0; --i)
    options.propagation_modes.push_back(c.pick(Modes));
  auto outcomes = std::make_shared<Outcomes>();
  if (c.chance(1, 3))
    for (int i = c.range(1, 6); i > 0; --i)
      outcomes->fails.push_back(c.boolean());
  size_t capacity = c.chance(1, 3) ? c.range(1, 3) : 1000;
  options.max_buffered_spans = capacity;
  if (legacy)
    options.transporter.reset(new Legacy(sink, outcomes));
  else
    options.transporter.reset(new Manual(sink, outcomes));
  auto tracer = MakeLightStepTracer(std::move(options));
  c.check(tracer != nullptr, "no tracer");

  std::vector<std::unique_ptr<SpanM>> spans;
  if (legacy) c.note("legacy");
  int ops = c.range(1, c.boolean() ? 10 : 40), serial = 0;
  uint64_t hits = 0, kinds = 0;
  int lost_starts = 0;

  // Calls f while allocations fail; how many did is returned.
  Plan pl{-1, 0};
  int what = 0;
  auto faulted = [&](const char* name, const std::function<void()> f) {
    c.note(name, pl.at < 0 ? ""
                           : "!" + std::to_string(pl.at) +
                                 (pl.count > 5 ? "+" : "x" + std::to_string(pl.count)));
    std::string escaped;
    uint64_t failed;
    {
      oom::Fault fault(pl.at, pl.count);
      try {
        f();
      } catch (const std::exception& e) {
        oom::Pause p;
        escaped = e.what();
      }
      failed = fault.failed();
    }
    c.check(escaped.empty(), name, " let an exception escape: ", escaped);
    hits += failed;
    if (failed) kinds |= 1u << what;
    return failed;
  };

  for (int op = 0; op < ops; ++op) {
    std::vector<SpanM*> alive;
    for (auto& s : spans)
      if (s->span) alive.push_back(s.get());
    what = alive.empty() ? 0 : c.weighted({3, 2, 6, 3, 3, 2, 2, 2, 2, 1, 1, 1});
    SpanM* m = what == 0 ? nullptr : c.pick(alive);
    pl = plan(c, what == 0 ? 12 : what >= 6 ? 24 : 8);
    switch (what) {
      case 0: {
        if (spans.size() > 8) break;
        std::unique_ptr<SpanM> n{new SpanM};
        std::string name = text(c);
        opentracing::StartSpanOptions o;
        SpanM* parent = nullptr;
        if (!alive.empty() && c.boolean()) {
          parent = c.pick(alive);
          o.references.emplace_back(opentracing::SpanReferenceType::ChildOfRef,
                                    &parent->span->context());
          n->baggage = parent->baggage;
        }
        for (int i = c.chance(1, 3) ? c.range(1, 3) : 0; i > 0; --i) {
          std::string k = "t" + std::to_string(serial++);
          o.tags.emplace_back(k, any_value(c, h));
          n->tags.push_back({k, o.tags.back().second, true});
        }
        uint64_t failed = faulted(
            "start", [&] { n->span = tracer->StartSpanWithOptions(name, o); });
        c.check(n->span || failed, "no span, though no allocation failed");
        if (!n->span) {
          ++lost_starts;
          break;
        }
        auto& x = tracing::ctx(n->span->context());
        n->id = x.span_id();
        n->trace = x.trace_id_low();
        if (parent) c.equal(n->trace, parent->trace, "trace id of a child");
        n->names.insert(name);
        c.equal(tracing::show(tracing::baggage_of(x)),
                tracing::show(n->baggage), "baggage of a new span");
        n->hit = failed > 0;
        spans.push_back(std::move(n));
        break;
      }
      case 1: {
        std::string n = text(c);
        uint64_t failed =
            faulted("name", [&] { m->span->SetOperationName(n); });
        m->hit |= failed > 0 && !m->finished;
        if (m->finished) break;
        if (!failed) m->names.clear();
        m->names.insert(n);
        break;
      }
      case 2: {
        std::string k = "t" + std::to_string(serial++);
        Value v = any_value(c, h);
        uint64_t failed = faulted("tag", [&] { m->span->SetTag(k, v); });
        if (m->finished) break;
        m->hit |= failed > 0;
        m->tags.push_back({k, v, !failed});
        break;
      }
      case 3: {
        std::string k = "l" + std::to_string(serial++);
        Value v = any_value(c, h);
        std::initializer_list<std::pair<opentracing::string_view, Value>>
            fields = {{k, v}, {"second", 2}};
        uint64_t failed = faulted("log", [&] { m->span->Log(fields); });
        if (m->finished) break;
        m->hit |= failed > 0;
        m->logs.push_back({k, v, !failed});
        break;
      }
      case 4: {
        std::string k = c.over("abc", 1) +
                        (c.boolean() ? std::string(c.range(1, 40), 'k') : ""),
                    v = text(c);
        uint64_t failed =
            faulted("baggage", [&] { m->span->SetBaggageItem(k, v); });
        if (m->finished) {
          // a legacy span takes them
          m->baggage = tracing::baggage_of(m->span->context());
          break;
        }
        m->hit |= failed > 0;
        Map with = m->baggage;
        with[k] = v;
        Map now = tracing::baggage_of(m->span->context());
        if (failed && legacy && now.size() == with.size() && now[k].empty()) {
          // the item is there already when its value cannot be stored
          Map empty = m->baggage;
          empty[k] = "";
          with = empty;
        }
        c.check(now == with || (failed && now == m->baggage), "baggage is ",
                tracing::show(now), ", expected ", tracing::show(with), "");
        m->baggage = now;
        break;
      }
      case 5: {
        std::string k = m->baggage.empty() ? "a" : m->baggage.begin()->first;
        auto it = m->baggage.find(k);
        std::string want = it == m->baggage.end() ? "" : it->second, got;
        uint64_t failed =
            faulted("item", [&] { got = m->span->BaggageItem(k); });
        c.check(got == want || (failed && got.empty()), "BaggageItem");
        break;
      }
      case 6: {
        opentracing::FinishSpanOptions o;
        std::vector<Item> logs;
        for (int i = c.boolean() ? c.range(1, 3) : 0; i > 0; --i) {
          opentracing::LogRecord r;
          r.timestamp = opentracing::SystemClock::now();
          std::string k = "l" + std::to_string(serial++);
          r.fields.emplace_back(k, any_value(c, h));
          r.fields.emplace_back("second", 2);
          logs.push_back({k, r.fields[0].second, true});
          o.log_records.push_back(r);
        }
        bool destroy = c.chance(1, 4);
        if (destroy) logs.clear();
        uint64_t failed = faulted(destroy ? "destroy" : "finish", [&] {
          if (destroy)
            m->span.reset();
          else
            m->span->FinishWithOptions(o);
        });
        if (m->finished) break;
        m->finished = true;
        m->sent = m->baggage;
        m->finish_may_fail = failed > 0;
        for (auto& l : logs) {
          l.sure = !failed;
          m->logs.push_back(l);
        }
        break;
      }
      case 7:
      case 8: {  // inject and extract
        int carrier = c.range(0, 2);
        auto& sc = m->span->context();
        uint64_t failed = 0;
        if (carrier == 2) {
          std::ostringstream want, got;
          c.check(static_cast<bool>(
                      tracer->Inject(sc, static_cast<std::ostream&>(want))),
                  "Inject");
          opentracing::expected<void> r;
          std::istringstream clean{want.str()}, in{want.str()};
          auto e = tracer->Extract(static_cast<std::istream&>(clean));
          c.check(e && *e, "Extract");
          if (what == 7) {
            failed = faulted("inject2", [&] {
              r = tracer->Inject(sc, static_cast<std::ostream&>(got));
            });
            c.check(r || failed, "Inject failed");
            if (!r) break;
            // in whatever order the baggage is
            c.equal(got.str().size(), want.str().size(), "size injected");
            std::istringstream again{got.str()};
            auto x = tracer->Extract(static_cast<std::istream&>(again));
            c.check(x && *x && same(**x, **e), "injected something else");
            break;
          }
          opentracing::expected<std::unique_ptr<opentracing::SpanContext>> x;
          failed = faulted("extract2", [&] {
            x = tracer->Extract(static_cast<std::istream&>(in));
          });
          c.check(x || failed, "Extract failed");
          if (x) c.check(*x && same(**x, **e), "extracted something else");
          break;
        }
        Writer<tracing::HttpWriter> http;
        Writer<tracing::TextWriter> txt;
        if (carrier == 0)
          c.check(static_cast<bool>(tracer->Inject(sc, http)), "Inject");
        else
          c.check(static_cast<bool>(tracer->Inject(sc, txt)), "Inject");
        Headers want = carrier == 0 ? http.headers : txt.headers;
        if (what == 7) {
          http.headers.clear();
          txt.headers.clear();
          opentracing::expected<void> r;
          failed = faulted("inject", [&] {
            if (carrier == 0)
              r = tracer->Inject(sc, http);
            else
              r = tracer->Inject(sc, txt);
          });
          c.check(r || failed, "Inject failed");
          // envoy's is a stream's
          c.check(r || r.error() == no_memory ||
                      r.error() == std::make_error_code(std::errc::io_error),
                  "error of Inject: ",
                  r ? "" : r.error().message());
          if (!r) break;
          Headers got = carrier == 0 ? http.headers : txt.headers;
          std::set<std::string> keys[2];
          size_t sizes[2] = {0, 0};
          for (int i = 0; i < 2; ++i)
            for (auto& x : i ? want : got) {
              keys[i].insert(x.first);
              sizes[i] += x.first.size() + x.second.size();
            }
          c.check(keys[0] == keys[1] && sizes[0] == sizes[1], "injected ",
                  tracing::show(got), ", expected ", tracing::show(want));
          auto x = tracer->Extract(tracing::TextReader(got)),
               e = tracer->Extract(tracing::TextReader(want));
          c.check(x && e && *x && *e && same(**x, **e), "injected ",
                  tracing::show(got), ", expected ", tracing::show(want));
          break;
        }
        Reader<tracing::HttpReader> hr(want);
        Reader<tracing::TextReader> tr(want);
        hr.lookup = tr.lookup = c.boolean();
        opentracing::expected<std::unique_ptr<opentracing::SpanContext>> e, x;
        if (carrier == 0)
          e = tracer->Extract(hr);
        else
          e = tracer->Extract(tr);
        c.check(e && *e, "Extract");
        failed = faulted("extract", [&] {
          if (carrier == 0)
            x = tracer->Extract(hr);
          else
            x = tracer->Extract(tr);
        });
        c.check(x || failed, "Extract failed");
        c.check(x || x.error() == no_memory, "error of Extract: ",
                x ? "" : x.error().message());
        if (x) c.check(*x && same(**x, **e), "extracted something else");
        break;
      }
      case 9: {
        BinaryCarrier want, got;
        c.check(static_cast<bool>(tracer->Inject(m->span->context(),
                                                 LightStepBinaryWriter{want})),
                "Inject");
        uint64_t failed;
        opentracing::expected<void> r;
        failed = faulted("carrier", [&] {
          r = tracer->Inject(m->span->context(), LightStepBinaryWriter{got});
        });
        c.check(r || (failed && r.error() == std::make_error_code(
                                                 std::errc::not_enough_memory)),
                "Inject failed");
        if (r)
          c.equal(got.SerializeAsString().size(),
                  want.SerializeAsString().size(), "injected");
        opentracing::expected<std::unique_ptr<opentracing::SpanContext>> x;
        failed += faulted(
            "make", [&] { x = tracer->Extract(LightStepBinaryReader{&want}); });
        c.check(x || (failed && x.error() == std::make_error_code(
                                                 std::errc::not_enough_memory)),
                "Extract failed");
        if (x) {
          c.check(*x != nullptr, "extracted nothing");
          c.equal(tracing::show(tracing::baggage_of(**x)),
                  tracing::show(m->baggage), "baggage extracted");
        }
        break;
      }
      case 10: {
        std::unordered_map<std::string, std::string> b;
        for (int i = c.range(0, 3); i > 0; --i)
          b["a" + std::to_string(i)] = text(c);
        auto copy = b;
        uint64_t failed, id = c.u64();
        opentracing::expected<std::unique_ptr<opentracing::SpanContext>> x;
        failed = faulted("context", [&] {
          x = tracer->MakeSpanContext(id, 2, true, std::move(b));
        });
        c.check(x || (failed && x.error() == std::make_error_code(
                                                 std::errc::not_enough_memory)),
                "MakeSpanContext failed");
        if (x) {
          c.check(tracing::ctx(**x).trace_id_low() == id, "trace id");
          c.check(tracing::baggage_of(**x) == Map(copy.begin(), copy.end()),
                  "baggage");
        }
        break;
      }
      default: {
        uint64_t failed;
        bool r;
        failed = faulted("flush", [&] { r = tracer->Flush(); });
        c.check(r || failed || legacy, "Flush failed");
      }
    }
  }
  for (auto& s : spans) {
    if (!s->span) continue;
    if (s->finished) continue;
    s->span->Finish();
    s->sent = s->baggage;
  }
  outcomes->fails.clear();
  c.check(tracer->Flush(), "Flush failed at the end");
  // one more report for what was dropped until now
  auto last = tracer->StartSpan("last");
  uint64_t last_id = tracing::ctx(last->context()).span_id();
  last->Finish();
  c.check(tracer->Flush(), "Flush failed at the end");
  for (auto& s : spans) s->span.reset();
  c.check(sink->error.empty(), sink->error);
  std::map<uint64_t, SpanM*> by_id;
  for (auto& s : spans) by_id[s->id] = s.get();
  std::set<uint64_t> seen;
  for (auto& g : sink->spans()) {
    if (g.span_context().span_id() == last_id) continue;
    auto it = by_id.find(g.span_context().span_id());
    c.check(it != by_id.end(), "a span nobody started is reported");
    c.check(seen.insert(it->first).second, "a span is reported twice");
    auto& m = *it->second;
    c.check(m.names.count(g.operation_name()), "operation name ",
            pbt::Case::quote(g.operation_name()));
    c.check(g.span_context().trace_id() == m.trace, "trace id");
    Map b(g.span_context().baggage().begin(), g.span_context().baggage().end());
    c.equal(tracing::show(b), tracing::show(m.sent), "baggage reported");
    check_items(c, g.tags(), m.tags, "tag",
                [](const collector::KeyValue& kv, const Item& w) {
                  return gen::kv_mismatch(kv, w.key, w.value);
                });
    check_items(
        c, g.logs(), m.logs, "log",
        [](const collector::Log& l, const Item& w) -> std::string {
          if (l.fields_size() != 2) return "number of fields";
          auto e = gen::kv_mismatch(l.fields(1), "second", Value{2});
          return e.empty() ? gen::kv_mismatch(l.fields(0), w.key, w.value) : e;
        });
  }
  int64_t missing = 0, told = 0;
  for (auto& s : spans)
    missing += !(seen.count(s->id) || s->hit || s->finish_may_fail);
  c.check(missing <= observer->dropped, missing,
          " spans none of whose calls failed are not reported, ",
          observer->dropped, " were counted as dropped");
  for (auto& r : sink->reports)
    for (auto& k : r.internal_metrics().counts()) {
      c.equal(k.name(), std::string("spans.dropped"), "count");
      told += k.int_value();
    }
  for (auto& r : sink->reports) c.note("R", r.spans_size(), "/", r.internal_metrics().ShortDebugString());
  c.note("lost ", outcomes->lost_spans, " sent ", observer->sent, " cap ", capacity, " logs ", sink->logs.size());
  c.equal(told, static_cast<int64_t>(observer->dropped),
          "dropped spans reported");
  c.equal(observer->sent + (legacy ? 0 : outcomes->lost_spans),
          static_cast<int64_t>(seen.size()) + 1 + outcomes->lost_spans,
          "spans counted as sent");
  c.check(observer->dropped >= outcomes->lost_spans,
          "spans of failed reports are not counted");
  c.classify("reports fail", outcomes->lost_spans > 0);
  for (int i = 0; i < 12; ++i) {
    static const char* Names[] = {"start",   "name",    "tag",     "log",
                                  "baggage", "item",    "finish",  "inject",
                                  "extract", "carrier", "context", "flush"};
    c.classify(std::string("failed in ") + Names[i], kinds >> i & 1);
  }
  c.classify("legacy", legacy);
  if (hits) c.nontrivial();
}

// ---------------------------------------------------------------------------
// Making tracers: what is returned works, or nothing is returned and nothing
// is kept.
namespace {
struct Made {
  std::mutex mutex;
  std::vector<collector::ReportRequest> reports;
  std::atomic<int> transporters{0}, observers{0}, sinks{0};
  std::atomic<int> sent{0}, dropped{0};
  std::string error;
  void add(const std::string& s) {
    oom::Pause p;
    std::lock_guard<std::mutex> g{mutex};
    reports.emplace_back();
    if (!reports.back().ParseFromString(s)) error = "a report does not parse";
  }
  int spans() {
    std::lock_guard<std::mutex> g{mutex};
    int n = 0;
    for (auto& r : reports) n += r.spans_size();
    return n;
  }
};
struct Counted {
  Made& m;
  explicit Counted(Made& x) : m(x) { ++m.transporters; }
  ~Counted() { --m.transporters; }
};
struct MadeAsync : AsyncTransporter, Counted {
  using Counted::Counted;
  void Send(std::unique_ptr<BufferChain>&& b, Callback& cb) noexcept override {
    auto message = std::move(b);
    {
      oom::Pause p;
      std::string t(message->num_bytes(), '\0');
      message->CopyOut(&t[0], t.size());
      m.add(t);
    }
    cb.OnSuccess(*message);
  }
};
struct MadeLegacy : LegacyAsyncTransporter, Counted {
  using Counted::Counted;
  void Send(const google::protobuf::Message& request,
            google::protobuf::Message& response, Callback& cb) override {
    {
      oom::Pause p;
      m.add(request.SerializeAsString());
      response.Clear();
    }
    cb.OnSuccess();
  }
};
struct MadeSync : SyncTransporter, Counted {
  using Counted::Counted;
  opentracing::expected<void> Send(
      const google::protobuf::Message& request,
      google::protobuf::Message& response) override {
    m.add(request.SerializeAsString());
    response.Clear();
    return {};
  }
};
struct MadeObserver : MetricsObserver {
  Made& m;
  explicit MadeObserver(Made& x) : m(x) { ++m.observers; }
  ~MadeObserver() override { --m.observers; }
};
struct SinkToken {
  Made& m;
  explicit SinkToken(Made& x) : m(x) { ++m.sinks; }
  ~SinkToken() { --m.sinks; }
};
// What the library writes to stderr is not of interest.
struct Quiet {
  int saved, null;
  Quiet() : saved(dup(2)), null(open("/dev/null", O_WRONLY)) { dup2(null, 2); }
  ~Quiet() {
    dup2(saved, 2);
    close(saved);
    close(null);
  }
};
}  // namespace

// The JSON parser of the library is not under test.
namespace pb = google::protobuf;
typedef pb::stringpiece_internal::StringPiece Piece;
pb::util::Status real_parse(Piece, pb::Message*,
                            const pb::util::JsonParseOptions&)
    asm("__real__ZN6google8protobuf4util19JsonStringToMessageENS0_20stringpiece"
        "_internal11StringPieceEPNS0_7MessageERKNS1_16JsonParseOptionsE");
pb::util::Status wrap_parse(Piece, pb::Message*,
                            const pb::util::JsonParseOptions&)
    asm("__wrap__ZN6google8protobuf4util19JsonStringToMessageENS0_20stringpiece"
        "_internal11StringPieceEPNS0_7MessageERKNS1_16JsonParseOptionsE");
pb::util::Status wrap_parse(Piece text, pb::Message* m,
                            const pb::util::JsonParseOptions& o) {
  oom::Pause p;
  return real_parse(text, m, o);
}

PROPERTY(oom_construct, p.concurrent = true; p.hang_seconds = 30;
         p.check_fds = true) {
  gen::Holder h;
  Made made;
  int kind = c.weighted({3, 2, 3, 3, 3});  // async, legacy, sync, stream, json
  static const char* Kinds[] = {"async", "legacy", "sync", "stream", "json"};
  LightStepTracerOptions o;
  o.access_token = "token";
  o.use_thread = kind >= 2;
  o.use_stream_recorder = kind == 3;
  o.collector_plaintext = true;
  o.verbose = c.boolean();
  o.satellite_endpoints.clear();
  for (int i = c.range(1, 3); i > 0; --i)
    o.satellite_endpoints.emplace_back("127.0.0." + std::to_string(i), 1);
  o.reporting_period = std::chrono::milliseconds{1};
  o.component_name = c.boolean() ? gen::utf8(c, 30) : "";
  std::map<std::string, Value> tags;
  for (int i = c.range(0, 3); i > 0; --i) {
    std::string k = "t" + std::to_string(i);
    o.tags[k] = gen::value(c, h, 1);
    tags[k] = o.tags[k];
  }
  o.propagation_modes = {PropagationMode::b3, PropagationMode::trace_context};
  if (c.boolean()) o.metrics_observer.reset(new MadeObserver{made});
  std::shared_ptr<SinkToken> token{new SinkToken{made}};
  if (c.boolean())
    o.logger_sink = [token](LogLevel, opentracing::string_view) {};
  token.reset();
  bool refused = c.chance(1, 8);
  // more spans than could ever be buffered
  bool huge = c.chance(1, 8);
  if (huge)
    o.max_buffered_spans =
        c.boolean() ? SIZE_MAX - c.draw(1) : SIZE_MAX >> c.range(1, 20);
  if (kind == 0) o.transporter.reset(new MadeAsync{made});
  if (kind == 1) o.transporter.reset(new MadeLegacy{made});
  if (kind == 2) o.transporter.reset(new MadeSync{made});
  if (refused) {  // a transporter of the wrong kind
    if (kind == 2)
      o.transporter.reset(new MadeAsync{made});
    else
      o.transporter.reset(new MadeSync{made});
  }
  Plan pl = plan(c, c.boolean() ? 60 : 250, 8);
  pl.at = c.range(0, c.boolean() ? 40 : kind == 4 ? 250 : 120);
  if (pl.count == 0) pl.count = 1;
  if (c.chance(1, 10)) pl.at = -1;
  c.note(Kinds[kind], refused ? " refused" : "", huge ? " huge" : "", " fault ", pl.at, "x",
         pl.count);
  std::shared_ptr<LightStepTracer> tracer;
  uint64_t failed;
  std::string json =
      "{\"component_name\":\"some component with a name\","
      "\"access_token\":\"a token that is not short\","
      "\"use_stream_recorder\":true,\"collector_plaintext\":true,"
      "\"satellite_endpoints\":[{\"host\":\"127.0.0.1\",\"port\":1}],"
      "\"tags\":{\"t1\":\"a value that has to be allocated\"},"
      "\"propagation_modes\":[\"b3\"" +
      std::string(refused ? ",\"nonsense\"" : "") + "]}";
  if (kind != 4) {
    Quiet q;
    std::string escaped;
    {
      oom::Fault fault(pl.at, pl.count);
      tracer = MakeLightStepTracer(std::move(o));
      failed = fault.failed();
    }
    if (refused)
      c.check(!tracer, "a tracer with the wrong kind of transporter");
    else if (huge && (kind == 0 || kind == 3))
      c.check(!tracer, "a tracer with an impossible buffer");
    else
      c.check(tracer || failed, "no tracer though no allocation failed");
  } else {
    Quiet q;
    const void* category = nullptr;
    std::string message;
    void* result = nullptr;
    int rc;
    {
      oom::Fault fault(pl.at, pl.count);
      rc = (*OpenTracingMakeTracerFactory)(OPENTRACING_VERSION,
                                           OPENTRACING_ABI_VERSION, &category,
                                           &message, &result);
      failed = fault.failed();
    }
    c.check((rc == 0) == (result != nullptr), "a factory and an error, or "
            "neither");
    if (rc != 0) {
      c.check(failed, "no factory");
      c.check(category == &std::generic_category() &&
                  rc == static_cast<int>(std::errc::not_enough_memory),
              "error of the entry point");
    } else {
      std::unique_ptr<opentracing::TracerFactory> factory{
          static_cast<opentracing::TracerFactory*>(result)};
      opentracing::expected<std::shared_ptr<opentracing::Tracer>> t;
      {
        oom::Fault fault(pl.at, pl.count);
        t = factory->MakeTracer(json.c_str(), message);
        failed += fault.failed();
      }
      if (refused)
        c.check(!t, "a tracer for a nonsensical mode");
      else
        c.check(t || failed, "no tracer though no allocation failed");
      if (t) {
        c.check(*t != nullptr, "success without a tracer");
        tracer = std::dynamic_pointer_cast<LightStepTracer>(*t);
        c.check(tracer != nullptr, "not a LightStep tracer");
      } else {
        c.check(static_cast<bool>(t.error()), "no error code");
      }
    }
  }
  if (tracer) {
    {
      auto span = tracer->StartSpan("op");
      c.check(span != nullptr, "no span");
      span->SetTag("k", 1);
      tracing::TextWriter w;
      c.check(static_cast<bool>(tracer->Inject(span->context(), w)), "Inject");
      c.check(w.headers.size() > 0, "nothing injected");
      span->Finish();
    }
    if (kind < 3) {
      c.check(tracer->FlushWithTimeout(std::chrono::seconds{20}), "Flush");
      c.check(made.error.empty(), made.error);
      c.equal(made.spans(), 1, "spans reported");
      auto& r = made.reports.back();
      c.equal(r.auth().access_token(), std::string("token"), "access token");
      std::set<std::string> keys;
      for (auto& t : r.reporter().tags()) {
        keys.insert(t.key());
        auto it = tags.find(t.key());
        if (it == tags.end()) continue;
        auto e = gen::kv_mismatch(t, it->first, it->second);
        c.check(e.empty(), "tag of the tracer: ", e);
      }
      c.equal(keys.size(), tags.size() + 5, "tags of the tracer");
      c.equal(static_cast<size_t>(r.reporter().tags_size()), keys.size(),
              "tags of the tracer");
    }
    if (kind == 3 && c.chance(1, 6)) {
      // The handlers run in the calling thread, in both processes.
      Plan f = plan(c, 30, 1);
      c.note("fork ", f.at, "x", f.count);
      pid_t pid;
      {
        Quiet q;
        oom::Fault fault(f.at, f.count);
        pid = fork();
        if (pid == 0) _exit(0);
        failed += fault.failed();
      }
      c.check(pid > 0, "fork");
      int status = 0;
      while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
      }
      c.check(WIFEXITED(status) && WEXITSTATUS(status) == 0,
              "a child process ended with status ", status);
      auto span = tracer->StartSpan("op");
      c.check(span != nullptr, "no span after fork");
      span->Finish();
      c.classify("forked", true);
    }
    tracer.reset();
  }
  { auto drop = std::move(o); }
  c.equal(made.transporters.load(), 0, "transporters left");
  c.equal(made.observers.load(), 0, "metrics observers left");
  c.equal(made.sinks.load(), 0, "logger sinks left");
  c.classify(Kinds[kind], failed > 0);
  if (failed || huge) c.nontrivial();
}

// ---------------------------------------------------------------------------
// The thread of an AutoRecorder, which runs out of memory at any point of
// making, sending and completing reports.
namespace {
struct Scripted : SyncTransporter {
  struct Step {
    Plan before, after;  // armed in OnFlush and when Send returns
    bool succeed, errors;
  };
  Made& m;
  std::vector<Step> steps;
  std::atomic<size_t> next{0};
  explicit Scripted(Made& x) : m(x) {}
  static void arm(const Plan& p) {
    oom::state() = oom::State{p.at >= 0, p.at, p.count, 0, 0};
  }
  opentracing::expected<void> Send(
      const google::protobuf::Message& request,
      google::protobuf::Message& response) override {
    arm({-1, 0});
    m.add(request.SerializeAsString());
    size_t i = next++;
    bool ok = i >= steps.size() || steps[i].succeed;
    auto& r = static_cast<collector::ReportResponse&>(response);
    r.Clear();
    if (i < steps.size() && steps[i].errors) {
      r.add_errors("an error that the collector found in the report");
      r.add_warnings("and a warning about something else in it");
      r.add_infos("and some information");
    }
    if (i < steps.size()) arm(steps[i].after);
    if (ok) return {};
    return opentracing::make_unexpected(
        std::make_error_code(std::errc::network_down));
  }
};
struct Arming : MetricsObserver {
  Scripted* script;
  Made* m;
  void OnSpansSent(int n) noexcept override { m->sent += n; }
  void OnSpansDropped(int n) noexcept override { m->dropped += n; }
  void OnFlush() noexcept override {
    size_t i = script->next;
    if (i < script->steps.size())
      Scripted::arm(script->steps[i].before);
    else
      Scripted::arm({-1, 0});
  }
};
}  // namespace

PROPERTY(oom_thread, p.concurrent = true; p.hang_seconds = 30;) {
  uint64_t before = oom::total();
  Made made;
  LightStepTracerOptions o;
  o.access_token = "token";
  o.reporting_period = std::chrono::microseconds{c.range(100, 2000)};
  o.verbose = c.boolean();
  o.max_buffered_spans = static_cast<size_t>(c.range(1, 20));
  o.logger_sink = [](LogLevel, opentracing::string_view) {};
  auto* script = new Scripted{made};
  for (int i = c.range(1, 8); i > 0; --i) {
    Scripted::Step s;
    s.before = plan(c, 4, 3);
    s.after = plan(c, 6, 2);
    s.succeed = c.chance(3, 4);
    s.errors = c.boolean();
    c.note(s.before.at, "x", s.before.count, " ", s.after.at, "x",
           s.after.count, s.succeed ? " ok" : " fails");
    script->steps.push_back(s);
  }
  auto* observer = new Arming;
  observer->script = script;
  observer->m = &made;
  o.metrics_observer.reset(observer);
  o.transporter.reset(script);
  auto tracer = MakeLightStepTracer(std::move(o));
  c.check(tracer != nullptr, "no tracer");
  std::set<std::string> names;
  int finished = 0, flushed = 0;
  for (int i = c.range(1, 12); i > 0; --i) {
    for (int k = c.range(1, 4); k > 0; --k) {
      std::string n = "span" + std::to_string(finished++);
      auto span = tracer->StartSpan(n);
      c.check(span != nullptr, "no span");
      span->Finish();
      names.insert(n);
    }
    if (!c.boolean()) continue;
    // not longer than it takes the thread to notice
    flushed += tracer->FlushWithTimeout(std::chrono::milliseconds{200});
  }
  tracer.reset();
  uint64_t failed = oom::total() - before;
  c.check(made.error.empty(), made.error);
  std::set<std::string> seen;
  for (auto& r : made.reports) {
    c.equal(r.auth().access_token(), std::string("token"), "access token");
    c.equal(r.reporter().tags_size(), 5, "tags of the tracer");
    c.equal(r.internal_metrics().counts_size(), 1, "counts in a report");
    for (auto& s : r.spans()) {
      c.check(names.count(s.operation_name()), "a span nobody made");
      c.check(seen.insert(s.operation_name()).second, s.operation_name(),
              " was sent twice");
    }
  }
  c.equal(made.sent.load(), static_cast<int>(seen.size()),
          "spans counted as sent");
  c.check(made.dropped <= finished, made.dropped, " spans dropped of ",
          finished);
  c.classify("failed", failed > 0);
  c.classify("flushed", flushed > 0);
  if (failed) c.nontrivial();
}
