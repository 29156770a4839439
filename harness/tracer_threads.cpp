// P31: spans and tracers used by several threads at once.
#include <set>
#include <sstream>
#include <thread>
#include "tracing.hpp"
using namespace lightstep;
using tracing::Headers;
using opentracing::Value;

namespace {
typedef std::map<std::string, std::string> Map;
struct Barrier {
  std::atomic<int> left;
  explicit Barrier(int n) : left(n) {}
  void wait() {
    --left;
    while (left > 0) {
    }
  }
};
enum Op {
  Tag, SharedTag, Log, Baggage, SharedBaggage, ReadBaggage, EachBaggage, Name,
  Flags, Inject, Child, Priority, Finish, Ops
};
const char* const op_names[] = {"tag", "shared tag", "log", "baggage",
                                "shared baggage", "read baggage",
                                "each baggage", "name", "flags", "inject",
                                "child", "priority", "finish"};
struct Step {
  Op op;
  int span;
  // what a reading step saw
  Map baggage;
  bool baggage_read = false;
  std::string problem;
  uint64_t child_trace = 0, child_span = 0;
  int weight = 0;  // length of the text
};
// Texts name the thread and the step that wrote them.
std::string stamp(int t, int i, int weight) {
  return std::to_string(t) + "." + std::to_string(i) + "." + std::string(weight, 'x');
}
struct SyncSink : SyncTransporter {
  struct State {
    std::mutex m;
    std::vector<collector::ReportRequest> reports;
    bool bad = false;
    int active = 0;
    int fail_every = 0, sent = 0;
  };
  std::shared_ptr<State> s;
  explicit SyncSink(std::shared_ptr<State> x) : s(std::move(x)) {}
  opentracing::expected<void> Send(const google::protobuf::Message& request,
                                   google::protobuf::Message& response) override {
    collector::ReportRequest r;
    bool ok = r.ParseFromString(request.SerializeAsString());
    std::lock_guard<std::mutex> l{s->m};
    if (!ok) s->bad = true;
    ++s->sent;
    if (s->fail_every && s->sent % s->fail_every == 0)
      return opentracing::make_unexpected(std::make_error_code(std::errc::network_down));
    s->reports.push_back(r);
    response.Clear();
    return {};
  }
};
std::unique_ptr<opentracing::Span> child_of(const opentracing::Tracer& tracer,
                                            const opentracing::Span& parent) {
  opentracing::StartSpanOptions o;
  o.references.emplace_back(opentracing::SpanReferenceType::ChildOfRef, &parent.context());
  return tracer.StartSpanWithOptions("child", o);
}
bool parse(const std::string& s, int& t, int& i, int& weight) {
  int at = 0;
  if (sscanf(s.c_str(), "%d.%d.%n", &t, &i, &at) != 2 || !at) return false;
  weight = static_cast<int>(s.size()) - at;
  return s == stamp(t, i, weight);
}
}  // namespace

PROPERTY(span_threads, p.concurrent = true; p.hang_seconds = 60;) {
  static const int sizes[] = {4, 12, 40};
  bool legacy = c.chance(1, 3);
  int threads = c.range(2, 4), nspans = c.range(1, 3);
  std::vector<std::vector<Step>> plan(threads);
  int max_steps = c.pick(sizes);
  for (int t = 0; t < threads; ++t) {
    int n = c.range(1, max_steps);
    for (int i = 0; i < n; ++i) {
      Step s;
      s.op = static_cast<Op>(
          c.weighted({5, 3, 4, 3, 2, 2, 2, 2, 2, 2, 2, 1, i * 3 > n ? 2u : 0u}));
      s.span = static_cast<int>(c.draw(nspans - 1));
      s.weight = c.chance(1, 8) ? static_cast<int>(c.range(100, 600))
                                : static_cast<int>(c.draw(9));
      plan[t].push_back(s);
    }
  }
  c.note(legacy ? "legacy, " : "", threads, " threads, ", nspans, " spans");
  for (int t = 0; t < threads; ++t) {
    std::string s;
    for (auto& x : plan[t]) s += std::string(" ") + op_names[x.op] + std::to_string(x.span);
    c.note("thread ", t, ":", s);
  }
  LightStepTracerOptions options;
  options.max_buffered_spans = std::function<size_t()>{[] { return size_t{5000}; }};
  // spans of the older kind come with a recorder that has its own thread: the
  // one without a thread leaves synchronization to its user
  tracing::Fixture fx;
  auto state = std::make_shared<SyncSink::State>();
  if (legacy) {
    options.access_token = "token";
    options.logger_sink = [](LogLevel, opentracing::string_view) {};
    options.reporting_period = std::chrono::milliseconds{1};
    options.transporter.reset(new SyncSink{state});
    fx.tracer = MakeLightStepTracer(std::move(options));
  } else {
    fx = tracing::make(false, std::move(options));
  }
  std::vector<std::unique_ptr<opentracing::Span>> spans;
  std::vector<uint64_t> trace_ids, span_ids;
  for (int i = 0; i < nspans; ++i) {
    spans.push_back(fx.tracer->StartSpan("start"));
    trace_ids.push_back(tracing::ctx(spans[i]->context()).trace_id_low());
    span_ids.push_back(tracing::ctx(spans[i]->context()).span_id());
  }
  Barrier barrier{threads};
  std::vector<std::thread> pool;
  for (int t = 0; t < threads; ++t)
    pool.emplace_back([&, t] {
      std::string own = "own" + std::to_string(t);
      barrier.wait();
      for (size_t k = 0; k < plan[t].size(); ++k) {
        Step& s = plan[t][k];
        auto& span = *spans[s.span];
        int i = static_cast<int>(k);
        auto text = stamp(t, i, s.weight);
        switch (s.op) {
          case Tag: span.SetTag(own, text); break;
          case SharedTag: span.SetTag("shared", text); break;
          case Log: span.Log({{"by", text}, {"again", text}}); break;
          case Baggage: span.SetBaggageItem(own, text); break;
          case SharedBaggage: span.SetBaggageItem("shared", text); break;
          case ReadBaggage: {
            s.baggage_read = true;
            auto v = span.BaggageItem(own);
            if (!v.empty()) s.baggage[own] = v;
            v = span.BaggageItem("shared");
            if (!v.empty()) s.baggage["shared"] = v;
            break;
          }
          case EachBaggage:
            s.baggage_read = true;
            s.baggage = tracing::baggage_of(span.context());
            break;
          case Name: span.SetOperationName(text); break;
          case Flags: {
            auto& x = tracing::ctx(span.context());
            if (x.trace_id_low() != trace_ids[s.span] || x.span_id() != span_ids[s.span])
              s.problem = "the ids of a span changed";
            if (x.trace_flags() != 1) s.problem = "the flags of a span changed";
            break;
          }
          case Inject: {
            tracing::TextWriter w;
            if (!fx.tracer->Inject(span.context(), w)) {
              s.problem = "Inject failed";
              break;
            }
            auto got = fx.tracer->Extract(tracing::TextReader(w.headers));
            if (!got || !*got) {
              s.problem = "the injected headers do not extract";
              break;
            }
            auto& x = tracing::ctx(**got);
            if (x.trace_id_low() != trace_ids[s.span] || x.span_id() != span_ids[s.span] ||
                x.trace_flags() != 1)
              s.problem = "the injected headers name another context";
            s.baggage_read = true;
            s.baggage = tracing::baggage_of(**got);
            break;
          }
          case Child: {
            auto child = child_of(*fx.tracer, span);
            auto& x = tracing::ctx(child->context());
            s.child_trace = x.trace_id_low();
            s.child_span = x.span_id();
            s.baggage_read = true;
            s.baggage = tracing::baggage_of(child->context());
            break;
          }
          case Priority: span.SetTag("sampling.priority", 1); break;
          case Finish: span.Finish(); break;
          case Ops: break;
        }
      }
    });
  for (auto& th : pool) th.join();
  spans.clear();
  fx.tracer->Flush();
  fx.tracer->Close();
  c.check(fx.sink->error.empty(), fx.sink->error);
  // The report, and what the threads saw, as bounds on how many of its steps
  // each thread had done to a span when it was finished.
  auto reported = fx.sink->spans();
  if (legacy) {
    std::lock_guard<std::mutex> l{state->m};
    c.check(!state->bad, "a report does not parse");
    for (auto& r : state->reports)
      for (auto& x : r.spans()) reported.push_back(x);
  }
  std::map<uint64_t, collector::Span> by_id;
  for (auto& s : reported)
    c.check(by_id.emplace(s.span_context().span_id(), s).second,
            "a span is reported twice");
  int interesting = 0;
  size_t expected = nspans;
  for (int n = 0; n < nspans; ++n) {
    std::string who = "span " + std::to_string(n);
    auto found = by_id.find(span_ids[n]);
    c.check(found != by_id.end(), who, " is not reported");
    auto& r = found->second;
    c.check(r.span_context().trace_id() == trace_ids[n], who, ": trace id");
    std::vector<int> lo(threads, 0), hi;
    for (int t = 0; t < threads; ++t) hi.push_back(static_cast<int>(plan[t].size()));
    std::vector<std::string> why(threads);
    auto at_least = [&](int t, int i, const std::string& w) {
      if (i > lo[t]) lo[t] = i, why[t] += "; " + w;
    };
    auto at_most = [&](int t, int i, const std::string& w) {
      if (i < hi[t]) hi[t] = i, why[t] += "; " + w;
    };
    // the steps of some kinds, in order, of which the report has a prefix
    auto prefix = [&](const std::string& what, std::function<bool(Op)> is,
                      const std::vector<std::string>& texts, size_t extra) {
      std::vector<std::vector<std::pair<int, int>>> seen(threads);
      for (auto& x : texts) {
        int t, i, w;
        c.check(parse(x, t, i, w) && t < threads && i < static_cast<int>(plan[t].size()),
                who, ": ", what, " has a torn text ", pbt::Case::quote(x));
        c.check(plan[t][i].span == n && is(plan[t][i].op) && plan[t][i].weight == w,
                who, ": ", what, " of another step: ", pbt::Case::quote(x, 20));
        seen[t].push_back({i, w});
      }
      for (int t = 0; t < threads; ++t) {
        size_t k = 0;
        for (size_t i = 0; i < plan[t].size(); ++i) {
          if (plan[t][i].span != n || !is(plan[t][i].op)) continue;
          if (k < seen[t].size()) {
            c.equal(seen[t][k].first, static_cast<int>(i),
                    who + ": step of thread " + std::to_string(t) + " in its " + what);
            ++k;
            at_least(t, static_cast<int>(i) + 1, what + " " + std::to_string(i) + " is there");
          } else {
            at_most(t, static_cast<int>(i), what + " " + std::to_string(i) + " is not there");
          }
        }
        c.equal(k, seen[t].size(), who + ": number of " + what + " of thread " + std::to_string(t));
      }
      (void)extra;
    };
    std::vector<std::string> tags, logs;
    int priorities = 0;
    for (auto& kv : r.tags()) {
      if (kv.key() == "sampling.priority") {
        ++priorities;
        continue;
      }
      tags.push_back(kv.string_value());
      int t, i, w;
      if (parse(kv.string_value(), t, i, w) && t < threads &&
          i < static_cast<int>(plan[t].size()))
        c.equal(kv.key(), plan[t][i].op == Tag ? "own" + std::to_string(t) : std::string("shared"),
                who + ": key of a tag");
    }
    for (auto& l : r.logs()) {
      c.equal(l.fields_size(), 2, who + ": fields of a log");
      c.check(l.fields(0).string_value() == l.fields(1).string_value(), who, ": torn log");
      logs.push_back(l.fields(0).string_value());
    }
    prefix("tags", [](Op o) { return o == Tag || o == SharedTag; }, tags, 0);
    prefix("logs", [](Op o) { return o == Log; }, logs, 0);
    {  // the name
      int t, i, w;
      if (r.operation_name() != "start") {
        c.check(parse(r.operation_name(), t, i, w) && t < threads &&
                    i < static_cast<int>(plan[t].size()) && plan[t][i].span == n &&
                    plan[t][i].op == Name && plan[t][i].weight == w,
                who, ": torn name ", pbt::Case::quote(r.operation_name()));
        at_least(t, i + 1, "its name is there");
        for (size_t k = i + 1; k < plan[t].size(); ++k)
          if (plan[t][k].span == n && plan[t][k].op == Name) {
            at_most(t, static_cast<int>(k), "a later name is not there");
            break;
          }
      } else {
        for (int u = 0; u < threads; ++u)
          for (size_t k = 0; k < plan[u].size(); ++k)
            if (plan[u][k].span == n && plan[u][k].op == Name) {
              at_most(u, static_cast<int>(k), "a name is not there");
              break;
            }
      }
    }
    // baggage, as reported and as seen by every reading step
    auto baggage = [&](const Map& m, int reader, int when, const std::string& what) {
      for (auto& kv : m) {
        int t, i, w;
        c.check(parse(kv.second, t, i, w) && t < threads && i < static_cast<int>(plan[t].size()) &&
                    plan[t][i].span == n && plan[t][i].weight == w &&
                    kv.first == (plan[t][i].op == Baggage ? "own" + std::to_string(t)
                                 : plan[t][i].op == SharedBaggage ? "shared" : "?"),
                who, ": ", what, " of ", pbt::Case::quote(kv.first), " is ",
                pbt::Case::quote(kv.second, 40));
        c.check(t != reader || i < when, who, ": ", what, " of a later step");
        if (!legacy || when < 0) at_least(t, i + 1, what + " is there");
      }
      // of its own key a thread sees what it wrote last, before the end
      for (int t = 0; t < threads; ++t) {
        if (when >= 0 && t != reader) continue;
        auto f = m.find("own" + std::to_string(t));
        int seen = -1, u, w;
        if (f != m.end()) parse(f->second, u, seen, w);
        int end = when >= 0 ? when : static_cast<int>(plan[t].size());
        for (int k = seen + 1; k < end; ++k)
          if (plan[t][k].span == n && plan[t][k].op == Baggage) {
            c.check(!legacy || when < 0, who, ": ", what, " is not the last set");
            at_most(t, k, what + " " + std::to_string(k) + " is not there");
            break;
          }
      }
    };
    baggage(Map(r.span_context().baggage().begin(), r.span_context().baggage().end()), -1, -1,
            "baggage");
    std::vector<int> finish(threads, -1);
    int finishers = 0;
    for (int t = 0; t < threads; ++t)
      for (size_t k = 0; k < plan[t].size(); ++k) {
        auto& s = plan[t][k];
        if (s.span != n) continue;
        c.check(s.problem.empty(), who, ", thread ", t, ", step ", k, ": ", s.problem);
        if (s.baggage_read) baggage(s.baggage, t, static_cast<int>(k), "baggage seen");
        if (s.op == Child) {
          ++expected;
          auto child = by_id.find(s.child_span);
          c.check(child != by_id.end(), "a child is not reported");
          c.check(s.child_trace == trace_ids[n] && child->second.references_size() == 1 &&
                      child->second.references(0).span_context().span_id() == span_ids[n] &&
                      child->second.references(0).span_context().trace_id() == trace_ids[n],
                  "a child does not refer to its parent");
        }
        if (s.op == Finish && finish[t] < 0) finish[t] = static_cast<int>(k), ++finishers;
      }
    // a loser's Finish of the other implementation may return first
    if (!legacy || finishers == 1)
      for (int t = 0; t < threads; ++t)
        if (finish[t] >= 0) at_most(t, finish[t], "the thread finished it");
    for (int t = 0; t < threads; ++t)
      c.check(lo[t] <= hi[t], who, ", thread ", t,
              ": no single moment of finishing explains the report", why[t]);
    bool explained = finishers == 0;
    for (int t = 0; t < threads; ++t) {
      if (finishers == 0)
        c.equal(hi[t], static_cast<int>(plan[t].size()),
                who + ": steps before it was destroyed" + why[t]);
      if (finish[t] >= 0 && lo[t] <= finish[t] && finish[t] <= hi[t]) explained = true;
    }
    c.check(explained, who, ": steps before every Finish are missing from the report");
    if (finishers > 1) c.classify("several finish");
    if (finishers == 1) c.classify("one finishes");
    interesting += tags.size() + logs.size() > 2;
  }
  c.equal(reported.size(), expected, "spans reported");
  if (interesting) c.nontrivial();
}

// Many spans in turn, each finished by all threads at almost the same moment.
PROPERTY(finish_race, p.concurrent = true; p.hang_seconds = 60;) {
  bool legacy = c.boolean();
  int threads = c.range(2, 3), nspans = c.range(10, 300);
  // when each thread gets to it, in turns of a loop, is one of a few patterns
  struct Turn {
    unsigned delay;
    bool tag;
  };
  std::vector<std::vector<Turn>> turns(threads);
  unsigned reach = 1u << c.draw(6);
  for (auto& v : turns)
    for (int i = c.range(1, 8); i > 0; --i)
      v.push_back({static_cast<unsigned>(c.draw(reach)), c.chance(1, 4)});
  c.note(legacy ? "legacy, " : "", threads, " threads, ", nspans, " spans, within ", reach);
  LightStepTracerOptions options;
  options.max_buffered_spans = std::function<size_t()>{[] { return size_t{5000}; }};
  tracing::Fixture fx;
  auto state = std::make_shared<SyncSink::State>();
  if (legacy) {
    options.access_token = "token";
    options.logger_sink = [](LogLevel, opentracing::string_view) {};
    options.reporting_period = std::chrono::milliseconds{1};
    options.transporter.reset(new SyncSink{state});
    fx.tracer = MakeLightStepTracer(std::move(options));
  } else {
    fx = tracing::make(false, std::move(options));
  }
  std::vector<std::unique_ptr<opentracing::Span>> spans;
  std::set<uint64_t> ids;
  for (int i = 0; i < nspans; ++i) {
    spans.push_back(fx.tracer->StartSpan("s"));
    ids.insert(tracing::ctx(spans.back()->context()).span_id());
  }
  c.equal(ids.size(), spans.size(), "different ids");
  std::atomic<int> arrived{0};
  std::vector<std::thread> pool;
  for (int t = 0; t < threads; ++t)
    pool.emplace_back([&, t] {
      for (int i = 0; i < nspans; ++i) {
        auto& turn = turns[t][i % turns[t].size()];
        ++arrived;
        for (int k = 0; arrived < threads * (i + 1); ++k) {
          if (k > 20000) std::this_thread::yield();
        }
        for (volatile unsigned k = 0; k < turn.delay; k = k + 1) {
        }
        if (turn.tag) spans[i]->SetTag("k", t);
        spans[i]->Finish();
      }
    });
  for (auto& th : pool) th.join();
  spans.clear();
  fx.tracer->Flush();
  fx.tracer->Close();
  auto reported = fx.sink->spans();
  c.check(fx.sink->error.empty(), fx.sink->error);
  {
    std::lock_guard<std::mutex> l{state->m};
    c.check(!state->bad, "a report does not parse");
    for (auto& r : state->reports)
      for (auto& x : r.spans()) reported.push_back(x);
  }
  std::set<uint64_t> seen;
  for (auto& r : reported) {
    c.check(ids.count(r.span_context().span_id()), "a span of no one is reported");
    c.check(seen.insert(r.span_context().span_id()).second,
            "a span finished by several threads is reported twice");
  }
  c.equal(seen.size(), ids.size(), "spans reported");
  c.nontrivial();
}

// Whole tracers: starting, finishing, propagating and flushing on all threads.
namespace {
struct AsyncSink : AsyncTransporter {
  std::shared_ptr<SyncSink::State> s;
  explicit AsyncSink(std::shared_ptr<SyncSink::State> x) : s(std::move(x)) {}
  void OnSpanBufferFull() noexcept override {}
  void Send(std::unique_ptr<BufferChain>&& m, Callback& cb) noexcept override {
    std::string d(m->num_bytes(), '\0');
    m->CopyOut(&d[0], d.size());
    collector::ReportRequest r;
    bool ok = r.ParseFromString(d), fail;
    {
      std::lock_guard<std::mutex> l{s->m};
      if (!ok) s->bad = true;
      ++s->sent;
      fail = s->fail_every && s->sent % s->fail_every == 0;
      if (!fail) s->reports.push_back(r);
    }
    if (fail) cb.OnFailure(*m);
    else cb.OnSuccess(*m);
  }
};
struct Observer : MetricsObserver {
  std::atomic<long> sent{0}, dropped{0};
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
};
}  // namespace

PROPERTY(tracer_threads, p.concurrent = true; p.hang_seconds = 60;) {
  static const size_t capacities[] = {3, 50, 2000};
  bool threaded = c.boolean();
  int threads = c.range(2, 4);
  auto state = std::make_shared<SyncSink::State>();
  state->fail_every = c.chance(1, 4) ? static_cast<int>(c.range(2, 4)) : 0;
  LightStepTracerOptions options;
  options.access_token = "token";
  options.use_thread = threaded;
  size_t capacity = c.pick(capacities);
  options.max_buffered_spans = std::function<size_t()>{[capacity] { return capacity; }};
  options.reporting_period = std::chrono::milliseconds{c.range(1, 20)};
  options.logger_sink = [](LogLevel, opentracing::string_view) {};
  if (c.chance(1, 2))
    options.propagation_modes = {PropagationMode::trace_context, PropagationMode::b3,
                                 PropagationMode::envoy, PropagationMode::cloud_trace};
  auto observer = new Observer;
  options.metrics_observer.reset(observer);
  if (threaded) options.transporter.reset(new SyncSink{state});
  else options.transporter.reset(new AsyncSink{state});
  auto tracer = MakeLightStepTracer(std::move(options));
  c.check(tracer != nullptr, "no tracer");
  struct Plan {
    int op, other;
  };
  std::vector<std::vector<Plan>> plan(threads);
  size_t total = 0;
  for (auto& p : plan) {
    size_t n = c.range(1, 60);
    for (size_t i = 0; i < n; ++i)
      p.push_back({static_cast<int>(c.weighted({6, 3, 2, 1, 1, 1})),
                   static_cast<int>(c.draw(threads - 1))});
    total += n;
  }
  int closer = c.chance(1, 4) ? static_cast<int>(c.draw(threads - 1)) : -1;
  c.note(threaded ? "threaded, " : "manual, ", threads, " threads, buffer of ", capacity,
         ", ", total, " steps, closed by ", closer, ", failing every ", state->fail_every);
  // each thread publishes the headers of its first span
  auto root = tracer->StartSpan("root");
  std::atomic<long> started{1};
  std::vector<std::string> problems(threads);
  std::vector<std::vector<uint64_t>> ids(threads);
  uint64_t root_trace = tracing::ctx(root->context()).trace_id_low();
  Barrier barrier{threads};
  std::vector<std::thread> pool;
  for (int t = 0; t < threads; ++t)
    pool.emplace_back([&, t] {
      barrier.wait();
      for (size_t i = 0; i < plan[t].size(); ++i) {
        switch (plan[t][i].op) {
          case 0: {
            auto s = child_of(*tracer, *root);
            ids[t].push_back(tracing::ctx(s->context()).span_id());
            ++started;
            break;
          }
          case 1: {
            auto s = tracer->StartSpan("s");
            ids[t].push_back(tracing::ctx(s->context()).span_id());
            ids[t].push_back(tracing::ctx(s->context()).trace_id_low());
            s->SetTag("k", static_cast<int>(i));
            s->Finish();
            s->Finish();
            ++started;
            break;
          }
          case 2: {
            tracing::HttpWriter w;
            if (!tracer->Inject(root->context(), w)) problems[t] = "Inject failed";
            auto x = tracer->Extract(tracing::HttpReader(w.headers));
            if (!x || !*x || tracing::ctx(**x).trace_id_low() != root_trace)
              problems[t] = "the root's headers do not name the root";
            break;
          }
          case 3: tracer->Flush(); break;
          case 4: root->SetBaggageItem("k" + std::to_string(t), "v"); break;
          default:
            if (t == closer && i * 2 > plan[t].size()) tracer->Close();
        }
      }
    });
  for (auto& th : pool) th.join();
  root.reset();
  tracer->Flush();
  tracer->Close();
  for (auto& p : problems) c.check(p.empty(), p);
  std::set<uint64_t> all;
  size_t n = 0;
  for (auto& v : ids)
    for (auto id : v) {
      ++n;
      all.insert(id);
    }
  c.equal(all.size(), n, "different ids");
  long sent = observer->sent, dropped = observer->dropped;
  tracer.reset();
  std::lock_guard<std::mutex> l{state->m};
  c.check(!state->bad, "a report does not parse");
  std::set<uint64_t> delivered;
  long reported = 0;
  for (auto& r : state->reports)
    for (auto& s : r.spans()) {
      ++reported;
      c.check(delivered.insert(s.span_context().span_id()).second, "a span is reported twice");
    }
  c.check(reported <= started, "more spans than were started");
  if (closer < 0 && capacity >= 2000 && !state->fail_every)
    c.equal(reported, started.load(), "spans reported, with room for all");
  if (closer < 0 && !state->fail_every)
    c.check(reported + dropped >= started, started.load(), " spans, ", reported,
            " reported, ", dropped, " dropped");
  (void)sent;
  if (started > 10) c.nontrivial();
}
