// The span API, checked against what is reported (P13) and against a model of
// trace identity, sampling and baggage across spans and hops (P18).
#include <set>
#include <sstream>
#include "clock.hpp"
#include "foreign_locale.hpp"
#include "gen.hpp"
#include "tracing.hpp"

using namespace lightstep;
using tracing::Headers;
using opentracing::Value;
typedef std::map<std::string, std::string> Map;
typedef std::chrono::nanoseconds ns;

namespace {
opentracing::SystemTime sys_at(int64_t n) {
  return opentracing::SystemTime{
      std::chrono::duration_cast<opentracing::SystemClock::duration>(ns{n})};
}
opentracing::SteadyTime steady_at(int64_t n) {
  return opentracing::SteadyTime{
      std::chrono::duration_cast<opentracing::SteadyClock::duration>(ns{n})};
}
std::string lower(std::string s) {
  for (auto& ch : s)
    if (ch >= 'A' && ch <= 'Z') ch += 32;
  return s;
}
std::string mixed_case(pbt::Case& c, std::string s) {
  if (c.boolean()) return s;
  for (auto& ch : s) {
    if (c.boolean()) continue;
    if (ch >= 'a' && ch <= 'z') ch -= 32;
    else if (ch >= 'A' && ch <= 'Z') ch += 32;
  }
  return s;
}

// What a context should say.
struct Ctx {
  uint64_t hi = 0, lo = 0, span = 0;
  uint8_t flags = 0;
  std::string state;
  Map baggage;
  bool sampled() const { return flags & 1; }
};

struct Ref {
  bool follows;
  uint64_t lo, span;
};
struct LogModel {
  int64_t first, last;  // nanoseconds
  std::vector<std::pair<std::string, Value>> fields;
};
struct SpanModel {
  std::unique_ptr<opentracing::Span> span;
  std::string name;
  std::vector<std::pair<std::string, Value>> tags;
  std::vector<LogModel> logs;
  std::vector<Ref> refs;
  int64_t start_first, start_last, steady_first, steady_last;
  int64_t dur_first = 0, dur_last = 0;  // nanoseconds
  Ctx ctx;
  bool finished = false, touched_late = false;
};

int64_t stamp(const google::protobuf::Timestamp& t) {
  return t.seconds() * 1000000000ll + t.nanos();
}

void check_reported(pbt::Case& c, const collector::Span& s, const SpanModel& m,
                    const std::string& who) {
  c.equal(s.operation_name(), m.name, who + ": operation name");
  c.check(s.span_context().trace_id() == m.ctx.lo, who, ": trace id");
  c.check(s.span_context().span_id() == m.ctx.span, who, ": span id");
  Map baggage(s.span_context().baggage().begin(),
              s.span_context().baggage().end());
  c.equal(tracing::show(baggage), tracing::show(m.ctx.baggage),
          who + ": baggage");
  c.equal<size_t>(s.references_size(), m.refs.size(), who + ": references");
  for (size_t i = 0; i < m.refs.size(); ++i) {
    auto& r = s.references(i);
    c.equal<int>(r.relationship(),
                 m.refs[i].follows ? collector::Reference::FOLLOWS_FROM
                                   : collector::Reference::CHILD_OF,
                 who + ": relationship");
    c.check(r.span_context().trace_id() == m.refs[i].lo &&
                r.span_context().span_id() == m.refs[i].span,
            who, ": reference ", i, " names ", r.span_context().trace_id(), "/",
            r.span_context().span_id(), ", expected ", m.refs[i].lo, "/",
            m.refs[i].span);
  }
  c.equal<size_t>(s.tags_size(), m.tags.size(), who + ": tags");
  for (size_t i = 0; i < m.tags.size(); ++i) {
    std::string e =
        gen::kv_mismatch(s.tags(i), m.tags[i].first, m.tags[i].second);
    c.check(e.empty(), who, ": tag ", i, ": ", e);
  }
  c.equal<size_t>(s.logs_size(), m.logs.size(), who + ": logs");
  for (size_t i = 0; i < m.logs.size(); ++i) {
    auto& l = s.logs(i);
    int64_t t = stamp(l.timestamp());
    c.check(t >= m.logs[i].first && t <= m.logs[i].last, who, ": log ", i,
            " is at ", t, ", expected within [", m.logs[i].first, ", ",
            m.logs[i].last, "]");
    c.equal<size_t>(l.fields_size(), m.logs[i].fields.size(),
                    who + ": log fields");
    for (size_t j = 0; j < m.logs[i].fields.size(); ++j) {
      std::string e = gen::kv_mismatch(l.fields(j), m.logs[i].fields[j].first,
                                       m.logs[i].fields[j].second);
      c.check(e.empty(), who, ": log ", i, " field ", j, ": ", e);
    }
  }
  int64_t t = stamp(s.start_timestamp());
  c.check(t >= m.start_first && t <= m.start_last, who, ": starts at ", t,
          ", expected within [", m.start_first, ", ", m.start_last, "]");
  c.check(s.start_timestamp().nanos() >= 0 &&
              s.start_timestamp().nanos() < 1000000000,
          who, ": nanoseconds of the start");
  int64_t d = s.duration_micros();
  c.check(d >= m.dur_first / 1000 && d <= m.dur_last / 1000, who, ": lasts ", d,
          "us, expected within [", m.dur_first / 1000, ", ",
          m.dur_last / 1000, "]");
}

// Short or block-crossing text.
std::string text(pbt::Case& c) {
  if (c.chance(1, 10)) {
    std::string s(c.chance(1, 10) ? c.range(16000, 70000) : c.range(100, 1500), 'x');
    for (auto& ch : s) ch = static_cast<char>('a' + (&ch - &s[0]) % 26);
    return s;
  }
  return gen::utf8(c, 40);
}
Value any_value(pbt::Case& c, gen::Holder& h) {
  if (c.chance(1, 12)) return Value{text(c)};
  return gen::value(c, h, c.range(0, 2));
}
// A key that is not special to the tracer.
std::string tag_key(pbt::Case& c) {
  std::string k = c.chance(1, 6) ? "sampling.priorit" : gen::utf8(c, 16);
  return k == "sampling.priority" ? "k" : k;
}
const char* Sampling = "sampling.priority";
Value sampling_value(pbt::Case& c, bool& sampled) {
  switch (c.draw(5)) {
    case 0: sampled = false; return Value{0};
    case 1: sampled = false; return Value{0u};
    case 2: sampled = true; return Value{1};
    case 3: sampled = true; return Value{static_cast<uint64_t>(1 + c.draw(99))};
    case 4: sampled = true; return Value{static_cast<int64_t>(-1)};
    default: sampled = true; return Value{int64_t{1} << c.range(1, 40)};
  }
}
std::string baggage_key(pbt::Case& c) {
  std::string k = c.boolean() ? std::string(1, "abAB"[c.range(0, 3)])
                  : c.chance(1, 4)
                      ? std::string(c.boolean() ? c.range(1, 60) : 45, 'k') + c.over("abAB01", c.draw(2))
                      : c.over("abcXYZ-_019", c.range(1, 8));
  return k;
}

typedef std::pair<opentracing::string_view, Value> Field;
void log_fields(opentracing::Span& s, const std::vector<Field>& f) {
  switch (f.size()) {
    case 0: s.Log({}); break;
    case 1: s.Log({f[0]}); break;
    case 2: s.Log({f[0], f[1]}); break;
    case 3: s.Log({f[0], f[1], f[2]}); break;
    case 4: s.Log({f[0], f[1], f[2], f[3]}); break;
    default: s.Log({f[0], f[1], f[2], f[3], f[4]});
  }
}
}  // namespace

PROPERTY(span_report, p.check_memory = true) {
  ForeignLocale locale{c};
  gen::Holder h;
  bool legacy = c.chance(1, 3);
  vclock::Use clock(c.pick({1, 1000, 999, 123456, 5000000}));
  LightStepTracerOptions options;
  bool states = c.boolean();
  if (states) options.propagation_modes = {PropagationMode::trace_context};
  auto fx = tracing::make(legacy, std::move(options));
  c.check(fx.tracer != nullptr, "no tracer");
  tracing::Foreign foreign;
  std::vector<std::unique_ptr<SpanModel>> spans;
  std::vector<SpanModel*> order;  // in order of their ends
  std::vector<std::unique_ptr<opentracing::SpanContext>> made;
  std::vector<Ctx> made_models;
  int ops = c.range(1, c.boolean() ? 12 : 60);
  std::string trace = legacy ? "legacy:" : "";
  int late = 0, large = 0;

  auto finish = [&](SpanModel& m, int how) {
    opentracing::FinishSpanOptions o;
    int64_t t0 = vclock::steady_now();
    int64_t given = 0;
    if (how > 0) {
      int n = c.chance(1, 3) ? c.range(1, 3) : 0;
      std::vector<LogModel> logs;
      for (int i = 0; i < n; ++i) {
        opentracing::LogRecord r;
        int64_t at = c.boolean() ? c.range(1, 4000000000000000000ll)
                                 : vclock::system_now() - c.range(0, 1000000);
        r.timestamp = sys_at(at);
        int k = c.range(0, 4);
        for (int j = 0; j < k; ++j)
          r.fields.emplace_back(gen::utf8(c, 8), any_value(c, h));
        logs.push_back({at, at, r.fields});
        o.log_records.push_back(r);
      }
      if (c.boolean()) {
        given = m.steady_last + c.range(0, c.boolean() ? 5000 : 4000000000000ll);
        o.finish_steady_timestamp = steady_at(given);
      }
      if (!m.finished)
        for (auto& l : logs) m.logs.push_back(l);
      m.span->FinishWithOptions(o);
    } else if (how == 0) {
      m.span->Finish();
    } else {
      m.span.reset();
    }
    int64_t t1 = vclock::steady_now();
    if (m.finished) return;
    m.finished = true;
    m.dur_first = (given ? given : t0) - m.steady_last;
    m.dur_last = (given ? given : t1) - m.steady_first;
    if (m.ctx.sampled()) order.push_back(&m);
  };

  for (int op = 0; op < ops; ++op) {
    std::vector<SpanModel*> alive;
    for (auto& s : spans)
      if (s->span) alive.push_back(s.get());
    int what = c.weighted({3, 3, 6, 2, 3, 3, 1});
    if (what == 0 || alive.empty()) {
      if (spans.size() > 12) continue;
      opentracing::StartSpanOptions o;
      std::unique_ptr<SpanModel> m{new SpanModel};
      m->name = text(c);
      large += m->name.size() > 100;
      // references
      int refs = c.weighted({4, 3, 1, 1});
      bool first = true;
      for (int i = 0; i < refs; ++i) {
        bool follows = c.boolean();
        auto type = follows ? opentracing::SpanReferenceType::FollowsFromRef
                            : opentracing::SpanReferenceType::ChildOfRef;
        int k = c.weighted({5, 3, 1, 1});
        const opentracing::SpanContext* target = nullptr;
        const Ctx* known = nullptr;
        if (k == 0 && !alive.empty()) {
          auto* t = c.pick(alive);
          if (t->touched_late) continue;
          target = &t->span->context();
          known = &t->ctx;
        } else if (k <= 1) {
          Ctx x;
          x.lo = c.u64();
          x.span = c.u64();
          x.flags = c.chance(3, 4);
          std::unordered_map<std::string, std::string> b;
          int nb = c.range(0, 2);
          for (int j = 0; j < nb; ++j) {
            std::string key = lower(baggage_key(c)), val = text(c);
            b[key] = val;
            x.baggage[key] = val;
          }
          if (states && c.boolean()) {
            // from another process, with a trace state
            x.flags |= static_cast<uint8_t>(c.draw(127) << 1);
            char head[64];
            snprintf(head, sizeof head, "00-%016llx%016llx-%016llx-%02x",
                     static_cast<unsigned long long>(c.u64()),
                     static_cast<unsigned long long>(x.lo),
                     static_cast<unsigned long long>(x.span), x.flags);
            Headers hs = {{"traceparent", head}, {"tracestate", "a=" + c.over("ab1", c.size(9))}};
            for (auto& kv : b) hs.emplace_back("ot-baggage-" + kv.first, kv.second);
            auto got = fx.tracer->Extract(tracing::TextReader(hs));
            c.check(got && *got, "Extract failed");
            made.push_back(std::move(*got));
          } else {
            auto made_ctx = fx.tracer->MakeSpanContext(x.lo, x.span, x.sampled(),
                                                       std::move(b));
            c.check(static_cast<bool>(made_ctx), "MakeSpanContext failed");
            made.push_back(std::move(*made_ctx));
          }
          made_models.push_back(x);
          target = made.back().get();
          known = &x;
          o.references.emplace_back(type, target);
          m->refs.push_back({follows, x.lo, x.span});
          if (first) m->ctx.lo = x.lo;
          first = false;
          m->ctx.flags |= x.flags;
          for (auto& kv : x.baggage) m->ctx.baggage[kv.first] = kv.second;
          continue;
        } else if (k == 2) {
          target = &foreign;
        }
        o.references.emplace_back(type, target);
        if (!known) continue;
        m->refs.push_back({follows, known->lo, known->span});
        if (first) m->ctx.lo = known->lo;
        first = false;
        m->ctx.flags |= known->flags;
        for (auto& kv : known->baggage) m->ctx.baggage[kv.first] = kv.second;
      }
      if (first) m->ctx.flags = 1;
      int tags = c.weighted({3, 2, 2, 1});
      for (int i = 0; i < tags; ++i) {
        if (c.chance(1, 10)) {
          bool sampled;
          o.tags.emplace_back(Sampling, sampling_value(c, sampled));
          m->ctx.flags = sampled;
        } else {
          o.tags.emplace_back(tag_key(c), any_value(c, h));
        }
        m->tags.push_back(o.tags.back());
      }
      int64_t given_sys = 0, given_steady = 0;
      if (c.chance(1, 3)) {
        given_sys = c.chance(1, 4) ? c.range(-2000000000000000000ll, -1)
                    : c.boolean()
                        ? c.range(1, 4000000000000000000ll)
                        : vclock::system_now() - c.range(0, 100000000000ll);
        if (given_sys == 0) given_sys = 1;
      }
      if (c.chance(1, 3))
        given_steady = vclock::steady_now() - c.range(0, 900000000000000ll);
      if (given_sys > vclock::system_now() && !given_steady)
        given_sys = vclock::system_now();  // starts in the past
      if (given_sys) o.start_system_timestamp = sys_at(given_sys);
      if (given_steady) o.start_steady_timestamp = steady_at(given_steady);
      int64_t s0 = vclock::system_now(), t0 = vclock::steady_now();
      m->span = fx.tracer->StartSpanWithOptions(m->name, o);
      int64_t s1 = vclock::system_now(), t1 = vclock::steady_now();
      c.check(m->span != nullptr, "StartSpan failed");
      int64_t window = t1 - t0, offset = s1 - t1;
      if (given_sys) {
        m->start_first = m->start_last = given_sys;
      } else if (given_steady) {
        m->start_first = given_steady + offset - window;
        m->start_last = given_steady + offset + window;
      } else {
        m->start_first = s0;
        m->start_last = s1;
      }
      if (given_steady) {
        m->steady_first = m->steady_last = given_steady;
      } else if (given_sys) {
        m->steady_first = given_sys - offset - window;
        m->steady_last = given_sys - offset + window;
        // the end must not come before any possible start
        vclock::elapsed += window + 1;
      } else {
        m->steady_first = t0;
        m->steady_last = t1;
      }
      auto& x = tracing::ctx(m->span->context());
      m->ctx.span = x.span_id();
      if (first) {
        m->ctx.lo = x.trace_id_low();
        c.check(x.trace_id_low() != x.span_id(), "trace id equals span id");
      }
      trace += " start" + std::to_string(spans.size());
      spans.push_back(std::move(m));
      continue;
    }
    SpanModel& m = *c.pick(alive);
    bool live = !m.finished;
    if (!live) ++late;
    switch (what) {
      case 1: {
        std::string n = text(c);
        m.span->SetOperationName(n);
        if (live) m.name = n;
        trace += " name";
        break;
      }
      case 2: {
        std::string k = tag_key(c);
        Value v;
        if (c.chance(1, 10)) {
          bool sampled;
          k = Sampling;
          v = sampling_value(c, sampled);
          if (live) m.ctx.flags = (m.ctx.flags & ~1) | sampled;
          else m.touched_late = true;
        } else {
          v = any_value(c, h);
        }
        m.span->SetTag(k, v);
        if (live) m.tags.emplace_back(k, v);
        trace += " tag";
        break;
      }
      case 3: {
        std::string k = baggage_key(c), v = text(c);
        m.span->SetBaggageItem(k, v);
        if (live) m.ctx.baggage[lower(k)] = v;
        else m.touched_late = true;
        trace += " baggage";
        break;
      }
      case 4: {
        std::vector<std::string> keys;
        std::vector<Field> f;
        LogModel l;
        int n = c.range(0, 5);
        keys.reserve(n);
        for (int i = 0; i < n; ++i) {
          keys.push_back(gen::utf8(c, 10));
          f.emplace_back(keys.back(), any_value(c, h));
          l.fields.emplace_back(keys.back(), f.back().second);
        }
        l.first = vclock::system_now();
        log_fields(*m.span, f);
        l.last = vclock::system_now();
        if (live) m.logs.push_back(l);
        trace += " log";
        break;
      }
      case 5:
        finish(m, c.range(0, 1));
        trace += " finish";
        break;
      default:
        finish(m, -1);
        trace += " destroy";
    }
  }
  for (auto& s : spans)
    if (s->span) finish(*s, c.range(-1, 1));
  c.check(fx.tracer->Flush(), "Flush failed");
  c.note(trace, " -> ", order.size(), " of ", spans.size(), " reported");
  auto& sink = *fx.sink;
  c.check(sink.error.empty(), sink.error);
  c.check(sink.reports.size() <= 1, "more than one report");
  auto got = sink.spans();
  c.equal(got.size(), order.size(), "spans reported");
  for (size_t i = 0; i < got.size(); ++i)
    check_reported(c, got[i], *order[i], "span " + std::to_string(i));
  for (auto& l : sink.logs)
    c.check(l.first != LogLevel::error, "error logged: ", l.second);
  c.classify("legacy", legacy);
  c.classify("calls after the end", late > 0);
  c.classify("unsampled spans", order.size() < spans.size());
  c.classify("text over 100 bytes", large > 0);
  if (order.size() >= 2 && order.size() < static_cast<size_t>(ops)) {
    size_t n = 0;
    for (auto* m : order) n += m->tags.size() + m->logs.size();
    if (n > 1) c.nontrivial();
  }
}

// ---------------------------------------------------------------------------
// P18
namespace {
const PropagationMode Modes[] = {
    PropagationMode::lightstep, PropagationMode::b3, PropagationMode::envoy,
    PropagationMode::trace_context, PropagationMode::cloud_trace};
const char* ModeNames[] = {"?", "lightstep", "b3", "envoy", "trace_context",
                           "cloud_trace"};

void check_context(pbt::Case& c, const opentracing::SpanContext& sc,
                   const Ctx& m, const std::string& who) {
  auto& x = tracing::ctx(sc);
  c.check(x.trace_id_low() == m.lo, who, ": trace id ", x.trace_id_low(),
          ", expected ", m.lo);
  c.check(x.trace_id_high() == m.hi, who, ": high trace id ",
          x.trace_id_high(), ", expected ", m.hi);
  c.check(x.span_id() == m.span, who, ": span id ", x.span_id(), ", expected ",
          m.span);
  c.equal<int>(x.trace_flags(), m.flags, who + ": trace flags");
  c.equal(x.sampled(), m.sampled(), who + ": sampled");
  c.equal(std::string(x.trace_state().data(), x.trace_state().size()), m.state,
          who + ": trace state");
  c.equal(tracing::show(tracing::baggage_of(sc)), tracing::show(m.baggage),
          who + ": baggage");
}

// What is left of a context after it crossed a process boundary.
Ctx after_hop(const Ctx& m, PropagationMode mode) {
  Ctx r = m;
  if (mode != PropagationMode::trace_context) {
    r.flags &= 1;
    r.state.clear();
  }
  if (mode == PropagationMode::lightstep || mode == PropagationMode::envoy)
    r.hi = 0;
  return r;
}
}  // namespace

PROPERTY(span_inheritance, p.check_memory = true) {
  ForeignLocale locale{c};
  bool legacy = c.chance(1, 3);
  LightStepTracerOptions options;
  int nmodes = c.range(1, 3);
  std::string modes;
  for (int i = 0; i < nmodes; ++i) {
    options.propagation_modes.push_back(c.pick(Modes));
    modes += std::string(i ? "," : "") +
             ModeNames[static_cast<int>(options.propagation_modes.back())];
  }
  PropagationMode first_mode = options.propagation_modes[0];
  auto fx = tracing::make(legacy, std::move(options));
  auto& tracer = *fx.tracer;
  tracing::Foreign foreign;

  struct Node {
    std::unique_ptr<opentracing::Span> span;
    std::unique_ptr<opentracing::SpanContext> remote;
    Ctx m;
    std::vector<Ref> refs;
    bool finished = false, late = false;
    const opentracing::SpanContext& sc() const {
      return span ? span->context() : *remote;
    }
  };
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::pair<Ctx, std::vector<Ref>>> expected;
  std::set<uint64_t> ids;
  int ops = c.range(2, c.boolean() ? 10 : 40), hops = 0, children = 0,
      multi = 0, unsampled = 0;
  std::string trace = std::string(legacy ? "legacy " : "") + modes + ":";

  for (int op = 0; op < ops; ++op) {
    int what = nodes.empty() ? 0 : c.weighted({5, 4, 3, 2, 2, 2});
    Node* at = nodes.empty() ? nullptr : c.pick(nodes).get();
    if (what == 0) {  // a new span
      std::unique_ptr<Node> n{new Node};
      opentracing::StartSpanOptions o;
      int refs = nodes.empty() ? 0 : c.weighted({1, 4, 2, 1});
      std::vector<std::string> states;
      for (int i = 0; i < refs; ++i) {
        bool follows = c.boolean();
        auto type = follows ? opentracing::SpanReferenceType::FollowsFromRef
                            : opentracing::SpanReferenceType::ChildOfRef;
        int kind = c.weighted({8, 1, 1});
        Node* t = c.pick(nodes).get();
        if (kind == 1) {
          o.references.emplace_back(type, &foreign);
          continue;
        }
        if (kind == 2) {
          o.references.emplace_back(type, nullptr);
          continue;
        }
        if (t->late) continue;
        o.references.emplace_back(type, &t->sc());
        if (n->refs.empty()) {
          n->m.hi = t->m.hi;
          n->m.lo = t->m.lo;
        }
        n->refs.push_back({follows, t->m.lo, t->m.span});
        n->m.flags |= t->m.flags;
        if (!t->m.state.empty()) states.push_back(t->m.state);
        for (auto& kv : t->m.baggage) n->m.baggage[kv.first] = kv.second;
      }
      for (size_t i = 0; i < states.size(); ++i)
        n->m.state += (i ? "," : "") + states[i];
      if (n->refs.empty()) n->m.flags = 1;
      if (c.chance(1, 5)) {
        bool sampled;
        o.tags.emplace_back(Sampling, sampling_value(c, sampled));
        n->m.flags = (n->m.flags & ~1) | sampled;
      }
      n->span = tracer.StartSpanWithOptions("s", o);
      c.check(n->span != nullptr, "StartSpan failed");
      auto& x = tracing::ctx(n->span->context());
      n->m.span = x.span_id();
      if (n->refs.empty()) n->m.lo = x.trace_id_low();
      trace += " span(" + std::to_string(n->refs.size()) + ")";
      c.check(ids.insert(n->m.span).second, "span id used twice");
      check_context(c, n->span->context(), n->m, "new span [" + trace + "]");
      children += !n->refs.empty();
      multi += n->refs.size() > 1;
      nodes.push_back(std::move(n));
    } else if (what == 1) {  // over the wire
      if (at->late) continue;
      std::unique_ptr<Node> n{new Node};
      int carrier = c.range(0, 2);
      opentracing::expected<std::unique_ptr<opentracing::SpanContext>> r;
      if (carrier == 0) {
        tracing::HttpWriter w;
        c.check(static_cast<bool>(tracer.Inject(at->sc(), w)), "Inject failed");
        for (auto& h : w.headers) h.first = mixed_case(c, h.first);
        tracing::HttpReader rd(w.headers);
        rd.lookup = c.boolean();
        r = tracer.Extract(rd);
        n->m = after_hop(at->m, first_mode);
      } else if (carrier == 1) {
        tracing::TextWriter w;
        c.check(static_cast<bool>(tracer.Inject(at->sc(), w)), "Inject failed");
        r = tracer.Extract(tracing::TextReader(w.headers));
        n->m = after_hop(at->m, first_mode);
      } else {
        std::stringstream ss;
        c.check(static_cast<bool>(
                    tracer.Inject(at->sc(), static_cast<std::ostream&>(ss))),
                "Inject failed");
        r = tracer.Extract(static_cast<std::istream&>(ss));
        n->m = after_hop(at->m, PropagationMode::envoy);
      }
      c.check(static_cast<bool>(r), "Extract failed after [", trace, "]");
      c.check(*r != nullptr, "Extract found nothing after [", trace, "]");
      n->remote = std::move(*r);
      trace += " hop" + std::to_string(carrier);
      check_context(c, n->sc(), n->m, "extracted [" + trace + "]");
      ++hops;
      nodes.push_back(std::move(n));
    } else if (what == 2) {  // a context from elsewhere
      std::unique_ptr<Node> n{new Node};
      if (c.boolean()) {
        n->m.lo = c.u64();
        n->m.span = c.u64();
        n->m.flags = c.chance(2, 3);
        std::unordered_map<std::string, std::string> b;
        int nb = c.range(0, 3);
        for (int i = 0; i < nb; ++i) {
          auto k = lower(baggage_key(c));
          b[k] = n->m.baggage[k] = gen::utf8(c, 10);
        }
        auto r = tracer.MakeSpanContext(n->m.lo, n->m.span, n->m.sampled(),
                                        std::move(b));
        c.check(static_cast<bool>(r), "MakeSpanContext failed");
        n->remote = std::move(*r);
      } else if (first_mode == PropagationMode::trace_context) {
        // flags and vendor state of another tracing system
        n->m.hi = c.u64();
        n->m.lo = c.u64();
        n->m.span = c.u64();
        n->m.flags = static_cast<uint8_t>(c.draw(255));
        char buf[80];
        snprintf(buf, sizeof buf, "00-%016llx%016llx-%016llx-%02x",
                 (unsigned long long)n->m.hi, (unsigned long long)n->m.lo,
                 (unsigned long long)n->m.span, n->m.flags);
        Headers h = {{"traceparent", buf}};
        if (c.boolean()) {
          n->m.state = "v" + std::to_string(c.range(0, 9)) + "=" +
                       c.over("abc019", c.range(1, 5));
          h.emplace_back("tracestate", n->m.state);
        }
        auto r = tracer.Extract(tracing::TextReader(h));
        c.check(r && *r, "Extract failed");
        n->remote = std::move(*r);
      } else {
        continue;
      }
      trace += " context";
      check_context(c, n->sc(), n->m, "context [" + trace + "]");
      nodes.push_back(std::move(n));
    } else if (what == 3) {  // baggage
      if (!at->span) continue;
      trace += at->finished ? " late-baggage" : " baggage";
      bool similar = c.chance(1, 4);
      std::string stem = similar ? std::string(c.range(1, 60), 'k') : "";
      for (int i = c.chance(1, 3) ? c.range(1, 12) : 1; i > 0; --i) {
        std::string k = similar ? stem + c.over("abc", c.draw(2)) : baggage_key(c);
        std::string v = gen::utf8(c, 12);
        at->span->SetBaggageItem(k, v);
        if (at->finished) continue;
        at->m.baggage[lower(k)] = v;
        c.equal(at->span->BaggageItem(mixed_case(c, k)), v, "BaggageItem");
      }
      if (at->finished) {
        at->late = true;
        continue;
      }
    } else if (what == 4) {  // sampling decision
      if (!at->span) continue;
      bool sampled;
      Value v = sampling_value(c, sampled);
      at->span->SetTag(Sampling, v);
      trace += sampled ? " sample" : " unsample";
      if (at->finished) {
        at->late = true;
        continue;
      }
      at->m.flags = (at->m.flags & ~1) | sampled;
    } else {
      if (!at->span || at->finished) continue;
      at->finished = true;
      at->span->Finish();
      trace += " finish";
      if (at->m.sampled()) expected.emplace_back(at->m, at->refs);
      else ++unsampled;
    }
    if (at && !at->late)
      check_context(c, at->sc(), at->m, "context [" + trace + "]");
    if (at && at->span && !at->late) {
      std::string k = baggage_key(c);
      auto it = at->m.baggage.find(lower(k));
      c.equal(at->span->BaggageItem(k),
              it == at->m.baggage.end() ? std::string() : it->second,
              "BaggageItem");
      c.check(&at->span->tracer() == fx.tracer.get(), "tracer of the span");
    }
    if (at && !at->late) {
      auto r = tracer.GetTraceSpanIdsSampled(at->sc());
      c.check(r && (*r)[0] == at->m.lo && (*r)[1] == at->m.span &&
                  (*r)[2] == (at->m.sampled() ? 1u : 0u),
              "GetTraceSpanIdsSampled [", trace, "]");
      size_t stop = c.draw(at->m.baggage.size()), seen = 0;
      at->sc().ForeachBaggageItem(
          [&](const std::string&, const std::string&) {
            return ++seen != stop;
          });
      c.equal(seen, stop ? stop : at->m.baggage.size(),
              "baggage items visited");
    }
  }
  c.check(!tracer.GetTraceSpanIdsSampled(foreign), "ids of a foreign context");
  {
    tracing::TextWriter w;
    auto r = tracer.Inject(foreign, w);
    c.check(!r && w.headers.empty(), "injected a foreign context");
  }
  // contexts compare by value
  for (auto& a : nodes)
    for (auto& b : nodes) {
      if (a->late || b->late) continue;
      bool same = a->m.hi == b->m.hi && a->m.lo == b->m.lo &&
                  a->m.span == b->m.span && a->m.flags == b->m.flags &&
                  a->m.state == b->m.state && a->m.baggage == b->m.baggage;
      c.equal(tracing::ctx(a->sc()) == tracing::ctx(b->sc()), same,
              "equality of contexts [" + trace + "]");
    }
  c.check(tracer.Flush(), "Flush failed");
  c.note(trace);
  c.check(fx.sink->error.empty(), fx.sink->error);
  auto got = fx.sink->spans();
  c.equal(got.size(), expected.size(), "spans reported");
  for (size_t i = 0; i < got.size(); ++i) {
    auto& m = expected[i].first;
    c.check(got[i].span_context().trace_id() == m.lo &&
                got[i].span_context().span_id() == m.span,
            "reported ids");
    Map b(got[i].span_context().baggage().begin(),
          got[i].span_context().baggage().end());
    c.equal(tracing::show(b), tracing::show(m.baggage), "reported baggage");
    c.equal<size_t>(got[i].references_size(), expected[i].second.size(),
                    "reported references");
    for (size_t j = 0; j < expected[i].second.size(); ++j) {
      auto& r = got[i].references(j);
      auto& e = expected[i].second[j];
      c.check(r.span_context().trace_id() == e.lo &&
                  r.span_context().span_id() == e.span &&
                  (r.relationship() == collector::Reference::FOLLOWS_FROM) ==
                      e.follows,
              "reported reference ", j);
    }
  }
  c.classify("legacy", legacy);
  c.classify("hops", hops > 0);
  c.classify("several references", multi > 0);
  c.classify("unsampled spans", unsampled > 0);
  if (children > 0 && hops > 0) c.nontrivial();
}

