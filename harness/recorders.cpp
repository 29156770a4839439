// The recorders that hand reports to a transporter: ManualRecorder (P19),
// AutoRecorder (P20) and LegacyManualRecorder (P21), each against a model of
// what is buffered, in flight, delivered and dropped.
#include <atomic>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <set>
#include <stdexcept>
#include <thread>
#include "common/random.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "pbt.hpp"
#include "recorder/auto_recorder.h"
#include "recorder/legacy_manual_recorder.h"
#include "recorder/manual_recorder.h"
#include "recorder/serialization/report_request.h"

using namespace lightstep;
typedef std::chrono::steady_clock Steady;
typedef std::vector<std::string> Names;

namespace {
struct Counts {
  std::atomic<int64_t> sent{0}, dropped{0}, flushes{0};
};
struct Observer : MetricsObserver {
  std::shared_ptr<Counts> n;
  explicit Observer(std::shared_ptr<Counts> c) : n(std::move(c)) {}
  void OnSpansSent(int k) noexcept override { n->sent += k; }
  void OnSpansDropped(int k) noexcept override { n->dropped += k; }
  void OnFlush() noexcept override { ++n->flushes; }
};

struct Report {
  Names spans;
  int64_t dropped = 0;
  uint64_t reporter = 0;
  std::string token, tag;
  bool operator==(const Report& o) const {
    return spans == o.spans && dropped == o.dropped;
  }
};
Report read(const collector::ReportRequest& r) {
  Report x;
  for (auto& s : r.spans()) x.spans.push_back(s.operation_name());
  for (auto& k : r.internal_metrics().counts())
    if (k.name() == "spans.dropped") x.dropped += k.int_value();
  x.reporter = r.reporter().reporter_id();
  x.token = r.auth().access_token();
  for (auto& t : r.reporter().tags()) x.tag += t.key() + "=" + t.string_value();
  return x;
}
std::string show(const Names& n) {
  std::string s = "[";
  for (auto& x : n) s += x.substr(0, 12) + " ";
  return s + "]";
}

bool read_chain(const BufferChain& b, Report& x, std::string& error) {
  std::string s, t(b.num_bytes(), '\0');
  size_t fragments = 0;
  std::pair<std::string*, size_t*> ctx{&s, &fragments};
  b.ForEachFragment(
      [](void* p, const void* data, size_t n) {
        auto& y = *static_cast<std::pair<std::string*, size_t*>*>(p);
        y.first->append(static_cast<const char*>(data), n);
        ++*y.second;
        return true;
      },
      &ctx);
  b.CopyOut(&t[0], t.size());
  collector::ReportRequest r;
  if (s != t) error = "CopyOut and ForEachFragment disagree";
  else if (fragments != b.num_fragments()) error = "wrong number of fragments";
  else if (!r.ParseFromString(s)) error = "report does not parse";
  x = read(r);
  return error.empty();
}

template <class R>
void record_stream(R& r, const std::string& name) {
  collector::Span span;
  span.set_operation_name(name);
  std::string body = span.SerializeAsString();
  std::unique_ptr<ChainedStream> stream{new ChainedStream{}};
  auto header = r.ReserveHeaderSpace(*stream);
  size_t at = 0;
  while (at < body.size()) {
    void* p;
    int n;
    if (!stream->Next(&p, &n)) abort();
    size_t k = std::min<size_t>(n, body.size() - at);
    memcpy(p, body.data() + at, k);
    at += k;
    if (k < static_cast<size_t>(n)) stream->BackUp(n - static_cast<int>(k));
  }
  r.RecordSpan(header, std::move(stream));
}

LightStepTracerOptions base_options(std::shared_ptr<Counts> counts) {
  LightStepTracerOptions o;
  o.access_token = "token";
  o.tags["tag"] = "value";
  if (counts) o.metrics_observer.reset(new Observer{counts});
  return o;
}

// ---------------------------------------------------------------------------
// P19
enum Reaction { Defer, Succeed, Fail };

struct ManualWorld {
  struct Flight {
    std::unique_ptr<BufferChain> message;
    Report report;
  };
  pbt::Case* c = nullptr;
  ManualRecorder* recorder = nullptr;
  AsyncTransporter::Callback* callback = nullptr;
  std::deque<Reaction> reactions;  // to the next sends
  int full_reaction = 0;           // 0 nothing, 1 flush, 2 complete a report
  int full_calls = 0, sends = 0;
  std::vector<Flight> in_flight;
  std::string error;
  uint64_t reporter = 0;
  // the model
  size_t capacity = 0;
  Names buffered, delivered;
  int64_t pending_drops = 0, dropped = 0, sent = 0, flushes = 0;
  int64_t delivered_drops = 0;

  void settle(Flight f, bool ok) {
    if (ok) {
      sent += f.report.spans.size();
      delivered.insert(delivered.end(), f.report.spans.begin(),
                       f.report.spans.end());
      delivered_drops += f.report.dropped;
      callback->OnSuccess(*f.message);
    } else {
      dropped += f.report.spans.size();
      pending_drops += f.report.dropped + f.report.spans.size();
      callback->OnFailure(*f.message);
    }
  }
  bool complete_one(size_t i, bool ok) {
    if (in_flight.empty()) return false;
    i %= in_flight.size();
    Flight f = std::move(in_flight[i]);
    in_flight.erase(in_flight.begin() + i);
    settle(std::move(f), ok);
    return true;
  }
  void send(std::unique_ptr<BufferChain>&& m, AsyncTransporter::Callback& cb) {
    callback = &cb;
    ++sends;
    Flight f;
    f.message = std::move(m);
    if (!read_chain(*f.message, f.report, error)) return;
    if (f.report.spans != buffered && error.empty())
      error = "report has " + show(f.report.spans) + ", buffered were " +
              show(buffered);
    if (f.report.dropped != pending_drops && error.empty())
      error = "report counts " + std::to_string(f.report.dropped) +
              " dropped spans, expected " + std::to_string(pending_drops);
    if (f.report.token != "token" || f.report.tag != "tag=value")
      error = "wrong report header";
    if (reporter && reporter != f.report.reporter) error = "reporter id changed";
    reporter = f.report.reporter;
    buffered.clear();
    pending_drops = 0;
    Reaction r = Defer;
    if (!reactions.empty()) {
      r = reactions.front();
      reactions.pop_front();
    }
    if (r == Defer) in_flight.push_back(std::move(f));
    else settle(std::move(f), r == Succeed);
  }
  // What flushing should do; the sending itself updates the model.
  void flush() {
    bool something = !buffered.empty() || pending_drops != 0;
    int before = sends;
    if (something) ++flushes;
    bool ok = recorder->FlushWithTimeout(std::chrono::seconds{1});
    if (!ok) error = "Flush failed";
    if ((sends - before == 1) != something)
      error = something ? "flush sent nothing" : "flush sent an empty report";
  }
  void full() {
    ++full_calls;
    if (buffered.size() < capacity) error = "OnSpanBufferFull when not full";
    if (full_reaction == 1) flush();
    else if (full_reaction == 2) complete_one(0, sends % 2);
  }
};
struct ManualTransport : AsyncTransporter {
  ManualWorld& w;
  explicit ManualTransport(ManualWorld& x) : w(x) {}
  void OnSpanBufferFull() noexcept override { w.full(); }
  void Send(std::unique_ptr<BufferChain>&& m, Callback& cb) noexcept override {
    w.send(std::move(m), cb);
  }
};
}  // namespace

PROPERTY(manual_history, p.check_memory = true;) {
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  ManualWorld w;
  w.c = &c;
  w.capacity = c.weighted({1, 6}) ? c.range(1, 12) : 0;
  auto counts = std::make_shared<Counts>();
  bool observed = !c.chance(1, 8);
  auto options = base_options(observed ? counts : nullptr);
  options.max_buffered_spans = w.capacity;
  std::unique_ptr<ManualRecorder> recorder{new ManualRecorder{
      logger, std::move(options),
      std::unique_ptr<AsyncTransporter>{new ManualTransport{w}}}};
  w.recorder = recorder.get();
  int ops = c.range(1, 60), recorded = 0, flights = 0, forks = 0;
  std::string trace = "capacity " + std::to_string(w.capacity) + ":";
  for (int i = 0; i < ops && w.error.empty(); ++i) {
    switch (c.weighted({12, 4, 3, 2, 1, 1})) {
      case 0: {
        std::string name = "s" + std::to_string(recorded++);
        if (c.chance(1, 6)) name += std::string(c.range(100, 3000), 'x');
        w.full_reaction = c.range(0, 2);
        bool full = w.buffered.size() >= w.capacity;
        int calls = w.full_calls;
        // the model learns of it before the recorder, except that a full
        // buffer first has its flush
        if (!full) {
          w.buffered.push_back(name);
          // a Send cannot happen here
          int s = w.sends;
          record_stream(*recorder, name);
          c.equal(w.sends, s, "reports sent by recording");
        } else {
          int64_t d = counts->dropped, was = w.dropped;
          record_stream(*recorder, name);
          bool room = w.buffered.size() < w.capacity;
          if (room) {
            w.buffered.push_back(name);
          } else {
            ++w.dropped;
            ++w.pending_drops;
          }
          if (observed)
            c.equal(counts->dropped - d, w.dropped - was,
                    "drops seen when recording into a full buffer");
        }
        c.equal(w.full_calls - calls, full ? 1 : 0, "calls of OnSpanBufferFull");
        trace += full ? " record(full)" : " record";
        break;
      }
      case 1:
        w.flush();
        trace += " flush";
        break;
      case 2: {
        bool ok = c.boolean();
        if (w.complete_one(c.range(0, 5), ok)) ++flights;
        trace += ok ? " success" : " failure";
        break;
      }
      case 3:
        w.reactions.push_back(static_cast<Reaction>(c.range(0, 2)));
        trace += " react";
        break;
      case 4:  // as in a forked child
        recorder->OnForkedChild();
        w.buffered.clear();
        w.pending_drops = 0;
        ++forks;
        trace += " forked";
        break;
      default:
        recorder->PrepareForFork();
        recorder->OnForkedParent();
        trace += " fork";
    }
    if (observed) {
      c.equal<int64_t>(counts->dropped, w.dropped, "observed drops");
      c.equal<int64_t>(counts->sent, w.sent, "observed sent spans");
      c.equal<int64_t>(counts->flushes, w.flushes, "observed flushes");
    }
  }
  c.note(trace);
  c.check(w.error.empty(), w.error);
  w.full_reaction = 0;
  w.reactions.clear();
  bool kept = !w.in_flight.empty() && c.boolean();
  if (!kept) {
    while (w.complete_one(0, true)) {
    }
    w.flush();
    c.check(w.error.empty(), w.error);
    while (w.complete_one(0, true)) {
    }
    std::set<std::string> unique(w.delivered.begin(), w.delivered.end());
    c.equal(unique.size(), w.delivered.size(), "distinct delivered spans");
    if (!forks)
      c.equal<int64_t>(w.delivered.size() + w.delivered_drops, recorded,
                       "spans delivered or reported as dropped");
  }
  recorder.reset();
  // a report outlives the recorder
  for (auto& f : w.in_flight) {
    Report r;
    std::string error;
    read_chain(*f.message, r, error);
    c.check(error.empty() && r == f.report, "report changed: ", error);
  }
  c.classify("a report failed", w.dropped > 0);
  c.classify("buffer full", w.full_calls > 0);
  if (w.sends > 1 && w.full_calls > 0 && flights > 0) c.nontrivial();
}

// Several threads record while others flush.
PROPERTY(manual_threads, p.concurrent = true; p.hang_seconds = 60;) {
  struct World {
    std::mutex mutex;
    std::vector<Report> ok;
    std::vector<std::unique_ptr<BufferChain>> later;
    std::string error;
    int64_t failed_spans = 0;
    unsigned mode = 0, sends = 0;
    std::atomic<ManualRecorder*> recorder{nullptr};
    std::atomic<int> full{0};
    bool flush_when_full = false;
    AsyncTransporter::Callback* cb = nullptr;
    void finish(BufferChain& m, bool good) {
      Report r;
      AsyncTransporter::Callback* callback;
      {
        std::lock_guard<std::mutex> l{mutex};
        read_chain(m, r, error);
        if (good) ok.push_back(r);
        else failed_spans += r.spans.size();
        callback = cb;
      }
      if (good) callback->OnSuccess(m);
      else callback->OnFailure(m);
    }
  } w;
  struct Transport : AsyncTransporter {
    World& w;
    explicit Transport(World& x) : w(x) {}
    void OnSpanBufferFull() noexcept override {
      ++w.full;
      if (w.flush_when_full)
        w.recorder.load()->FlushWithTimeout(std::chrono::seconds{1});
    }
    void Send(std::unique_ptr<BufferChain>&& m, Callback& cb) noexcept override {
      unsigned k;
      {
        std::lock_guard<std::mutex> l{w.mutex};
        w.cb = &cb;
        k = w.mode >> (w.sends++ % 8 * 2) & 3;
        if (k == 3) {
          w.later.push_back(std::move(m));
          return;
        }
      }
      w.finish(*m, k != 1);
    }
  };
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  auto counts = std::make_shared<Counts>();
  auto options = base_options(counts);
  size_t capacity = c.range(1, 40);
  options.max_buffered_spans = capacity;
  w.mode = c.draw(65535);
  w.flush_when_full = c.boolean();
  int recorders = c.range(1, 3), flushers = c.range(1, 2);
  int per = c.range(20, 300);
  c.note(recorders, " recorders x ", per, ", ", flushers, " flushers, capacity ",
         capacity, w.flush_when_full ? ", flush when full" : "", ", reactions ",
         w.mode);
  ManualRecorder recorder{logger, std::move(options),
                          std::unique_ptr<AsyncTransporter>{new Transport{w}}};
  w.recorder = &recorder;
  std::atomic<bool> stop{false};
  std::vector<std::thread> rs, fs;
  for (int t = 0; t < recorders; ++t) {
    rs.emplace_back([&, t] {
      for (int i = 0; i < per; ++i)
        record_stream(recorder,
                      std::to_string(t) + ":" + std::to_string(i));
    });
  }
  for (int t = 0; t < flushers; ++t) {
    fs.emplace_back([&] {
      while (!stop) {
        recorder.FlushWithTimeout(std::chrono::seconds{1});
        std::unique_ptr<BufferChain> m;
        {
          std::lock_guard<std::mutex> l{w.mutex};
          if (!w.later.empty()) {
            m = std::move(w.later.back());
            w.later.pop_back();
          }
        }
        if (m) w.finish(*m, true);
      }
    });
  }
  for (auto& t : rs) t.join();
  stop = true;
  for (auto& t : fs) t.join();
  w.mode = 0;
  while (!w.later.empty()) {
    auto m = std::move(w.later.back());
    w.later.pop_back();
    w.finish(*m, true);
  }
  c.check(recorder.FlushWithTimeout(std::chrono::seconds{1}), "flush failed");
  c.check(w.error.empty(), w.error);
  std::set<std::string> seen;
  int64_t delivered = 0, drops = 0;
  for (auto& r : w.ok) {
    std::vector<int> last(recorders, -1);
    drops += r.dropped;
    for (auto& s : r.spans) {
      ++delivered;
      c.check(seen.insert(s).second, "span ", s, " delivered twice");
      int t = atoi(s.c_str()), i = atoi(s.c_str() + s.find(':') + 1);
      c.check(t >= 0 && t < recorders && i >= 0 && i < per, "no such span: ", s);
      c.check(i > last[t], "span ", s, " out of order");
      last[t] = i;
    }
  }
  c.equal(delivered + drops, static_cast<int64_t>(recorders) * per,
          "spans delivered or reported as dropped");
  c.equal<int64_t>(counts->dropped, drops, "drops seen by the observer");
  c.equal<int64_t>(counts->sent, delivered, "sent spans seen by the observer");
  if (w.full == 0) c.equal(drops, w.failed_spans, "drops without a full buffer");
  if (w.sends > 3 && recorders > 1) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P21
namespace {
struct LegacyWorld {
  pbt::Case* c;
  LegacyAsyncTransporter::Callback* callback = nullptr;
  google::protobuf::Message* response = nullptr;
  const google::protobuf::Message* request = nullptr;
  std::string request_bytes;
  int reaction = 0;   // 0 defer, 1 succeed, 2 fail, 3 throw
  bool disable_next = false;
  bool was_disabled = false;  // before the current operation
  std::string next_span;      // is added after the next send
  // the model
  Names pending, delivered;
  bool in_flight = false, disabled = false;
  Report flight;
  int64_t drops = 0, all_drops = 0, sent = 0, delivered_drops = 0;
  int sends = 0, failures = 0;
  std::string error;
  uint64_t reporter = 0;

  void complete(bool ok) {
    if (request_bytes != request->SerializeAsString())
      error = "the request changed while it was being sent";
    in_flight = false;
    if (ok) {
      collector::ReportResponse r;
      if (disable_next) {
        r.add_commands()->set_disable(false);
        r.add_commands()->set_disable(true);
        disabled = true;
      } else if (sends % 3 == 0) {
        r.add_commands()->set_disable(false);
      }
      response->CopyFrom(r);
      delivered.insert(delivered.end(), flight.spans.begin(),
                       flight.spans.end());
      delivered_drops += flight.dropped;
      callback->OnSuccess();
    } else {
      failed();
      callback->OnFailure(std::make_error_code(std::errc::network_down));
    }
  }
  void failed() {
    ++failures;
    in_flight = false;
    drops += flight.dropped + flight.spans.size();
    all_drops += flight.spans.size();
  }
  void send(const google::protobuf::Message& m, google::protobuf::Message& resp,
            LegacyAsyncTransporter::Callback& cb) {
    ++sends;
    if (in_flight) error = "two reports in flight";
    if (was_disabled) error = "report sent after being disabled";
    callback = &cb;
    response = &resp;
    request = &m;
    request_bytes = m.SerializeAsString();
    collector::ReportRequest r;
    if (!r.ParseFromString(request_bytes)) error = "report does not parse";
    flight = read(r);
    if (flight.spans != pending)
      error = "report has " + show(flight.spans) + ", buffered were " +
              show(pending);
    if (flight.spans.empty()) error = "empty report";
    if (flight.dropped != drops)
      error = "report counts " + std::to_string(flight.dropped) +
              " dropped spans, expected " + std::to_string(drops);
    if (flight.token != "token" || flight.tag != "tag=value")
      error = "wrong report header";
    if (reporter && reporter != flight.reporter) error = "reporter id changed";
    reporter = flight.reporter;
    sent += flight.spans.size();
    pending.clear();
    if (!next_span.empty()) pending.push_back(next_span);
    next_span.clear();
    drops = 0;
    in_flight = true;
    switch (reaction) {
      case 1: complete(true); break;
      case 2: complete(false); break;
      case 3:
        failed();
        throw std::runtime_error{"transporter"};
      default: break;
    }
  }
};
struct LegacyTransport : LegacyAsyncTransporter {
  LegacyWorld& w;
  explicit LegacyTransport(LegacyWorld& x) : w(x) {}
  void Send(const google::protobuf::Message& m, google::protobuf::Message& r,
            Callback& cb) override {
    w.send(m, r, cb);
  }
};
}  // namespace

PROPERTY(legacy_history, p.check_memory = true;) {
  std::string log;
  Logger logger{[&](LogLevel, opentracing::string_view s) {
    log.append(s.data(), s.size());
  }};
  LegacyWorld w;
  w.c = &c;
  auto counts = std::make_shared<Counts>();
  bool observed = !c.chance(1, 8);
  auto options = base_options(observed ? counts : nullptr);
  size_t limit = c.chance(1, 12) ? 0 : c.range(1, 10);
  bool dynamic = c.chance(1, 3);
  if (dynamic)
    options.max_buffered_spans =
        std::function<size_t()>{[&limit] { return limit; }};
  else
    options.max_buffered_spans = limit;
  std::unique_ptr<LegacyManualRecorder> owner{new LegacyManualRecorder{
      logger, std::move(options),
      std::unique_ptr<LegacyAsyncTransporter>{new LegacyTransport{w}}}};
  Recorder& recorder = *owner;
  int ops = c.range(1, 60), recorded = 0, late = 0;
  for (int i = 0; i < ops && w.error.empty(); ++i) {
    w.reaction = c.weighted({3, 3, 2, 1});
    w.disable_next = c.chance(1, 20);
    int before = w.sends;
    w.was_disabled = w.disabled;
    switch (c.weighted({10, 4, 3, 1})) {
      case 0: {
        collector::Span span;
        span.set_operation_name("s" + std::to_string(recorded++));
        bool was_disabled = w.disabled, was_flight = w.in_flight;
        size_t had = w.pending.size();
        bool drop = was_disabled || (had >= limit && was_flight);
        // a full buffer is sent before the span is added
        bool first = !drop && had > 0 && had >= limit;
        if (drop) {
          ++w.drops;
          ++w.all_drops;
        } else if (!first) {
          w.pending.push_back(span.operation_name());
        } else {
          w.next_span = span.operation_name();
        }
        recorder.RecordSpan(span);
        c.note(drop ? " record(dropped)" : " record");
        if (first) {
          c.check(w.sends > before, "full buffer not sent");
          c.check(w.sends <= before + 2, "reports sent");
        } else {
          bool must = !drop && w.sends == before && !w.in_flight &&
                      w.pending.size() >= limit && !w.disabled;
          c.check(!must, "the full buffer was not sent");
          c.check(w.sends - before <= 1, "reports sent");
          if (w.sends > before)
            c.check(had + 1 >= limit && !was_flight, "sent before it was full");
        }
        break;
      }
      case 1: {
        bool was_disabled = w.disabled, was_flight = w.in_flight;
        size_t had = w.pending.size();
        int f = w.failures;
        bool ok = recorder.FlushWithTimeout(std::chrono::seconds{1});
        c.note(ok ? " flush" : " flush(no)");
        if (was_disabled) {
          c.check(!ok && w.sends == before, "flush when disabled");
          ++late;
        } else if (was_flight) {
          c.check(w.sends == before, "flush with a report in flight sent one");
          c.equal(ok, had == 0, "flush with a report in flight");
        } else {
          c.equal(w.sends - before, had ? 1 : 0, "reports sent by flush");
          bool threw = w.failures > f && w.reaction == 3;
          c.equal(ok, !threw, "result of flush");
        }
        break;
      }
      case 2:
        if (w.in_flight) {
          bool ok = c.boolean();
          w.complete(ok);
          c.note(ok ? " success" : " failure");
        }
        break;
      default:
        if (dynamic) {
          limit = c.range(0, 10);
          c.note(" limit=" + std::to_string(limit));
        }
    }
    if (observed) {
      c.equal<int64_t>(counts->dropped, w.all_drops, "observed drops");
      c.equal<int64_t>(counts->sent, w.sent, "observed sent spans");
    }
  }
  c.check(w.error.empty(), w.error);
  w.reaction = 1;
  w.disable_next = false;
  if (!w.disabled) {
    if (w.in_flight) w.complete(true);
    c.check(recorder.FlushWithTimeout(std::chrono::seconds{1}), "last flush");
    c.check(w.error.empty(), w.error);
    std::set<std::string> unique(w.delivered.begin(), w.delivered.end());
    c.equal(unique.size(), w.delivered.size(), "distinct delivered spans");
    c.equal<int64_t>(w.delivered.size() + w.delivered_drops + w.drops, recorded,
                     "spans delivered or counted as dropped");
  }
  c.classify("disabled", w.disabled);
  c.classify("failures", w.failures > 0);
  if (w.sends > 2 && w.failures > 0) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P20.  The recorder's condition variable and its transporter run in virtual
// time: the writer thread waits or sends until the case moves the clock, and
// the case goes on only when the writer cannot.
namespace {
typedef int64_t ns_t;
struct Sim {
  std::mutex m;
  std::condition_variable cv;
  ns_t now = 0;
  uint64_t notified = 0;  // by the recorder
  enum { Running, Waiting, Sending, Exited } writer = Running;
  ns_t until = 0;
  uint64_t seen = 0;
  bool closing = false;  // the recorder is being destroyed
  bool hung = false;
  std::thread::id driver;
  // decided by the case
  std::deque<std::pair<ns_t, int>> sends;  // duration, outcome
  std::string error;

  // Waits until the writer can do nothing more at this time.
  void settle() {
    std::unique_lock<std::mutex> l{m};
    bool ok = cv.wait_for(l, std::chrono::seconds{20}, [&] {
      switch (writer) {
        case Waiting: return seen == notified && until > now;
        case Sending: return until > now;
        case Exited: return true;
        default: return false;
      }
    });
    if (!ok) hung = true;
  }
  ns_t next_event() {
    std::lock_guard<std::mutex> l{m};
    return writer == Waiting || writer == Sending ? until : INT64_MAX;
  }
  void advance_to(ns_t t) {
    for (;;) {
      settle();
      if (hung) return;
      ns_t e = next_event();
      {
        std::lock_guard<std::mutex> l{m};
        if (e > t) {
          now = std::max(now, t);
          break;
        }
        now = std::max(now, e);
        cv.notify_all();
      }
    }
    settle();
  }
};
Sim* sim = nullptr;
struct ExitMark {
  bool used = false;
  ~ExitMark() {
    if (!used || !sim) return;
    std::lock_guard<std::mutex> l{sim->m};
    sim->writer = Sim::Exited;
    sim->cv.notify_all();
  }
};
thread_local ExitMark exit_mark;

struct AutoModel {
  pbt::Case* c;
  AutoRecorder* recorder = nullptr;
  size_t limit = 0, snapshot = 0;
  bool dynamic = false;
  ns_t period = 0;
  Names pending;
  std::vector<ns_t> accepted_at;
  Names delivered;
  int64_t drops = 0, all_drops = 0, sent = 0, delivered_drops = 0;
  int64_t accepted = 0, settled_spans = 0;  // settled: their Send is over
  bool disabled = false, dead = false, sending = false;
  ns_t last_end = 0;
  std::vector<std::pair<int64_t, ns_t>> settled_at;
  int sends = 0, failures = 0, throws = 0;
  uint64_t reporter = 0;
  std::shared_ptr<Counts> counts;
  bool observed = true;
  std::function<void()> during_wait;  // another thread's work while flushing
} *am = nullptr;

struct SimCondition : ConditionVariableWrapper {
  Steady::time_point Now() const override {
    if (std::this_thread::get_id() != sim->driver) exit_mark.used = true;
    std::lock_guard<std::mutex> l{sim->m};
    return Steady::time_point{std::chrono::nanoseconds{sim->now}};
  }
  void NotifyAll() override {
    std::lock_guard<std::mutex> l{sim->m};
    ++sim->notified;
    sim->cv.notify_all();
  }
  // called by the case, while it flushes
  bool WaitFor(std::unique_lock<std::mutex>& lock, const Steady::duration& d,
               std::function<bool()> pred) override {
    ns_t deadline;
    uint64_t seen;
    {
      std::lock_guard<std::mutex> l{sim->m};
      ns_t n = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
      if (__builtin_add_overflow(sim->now, std::max<ns_t>(n, 0), &deadline))
        deadline = INT64_MAX;
      seen = sim->notified;
    }
    if (pred()) return true;
    for (;;) {
      ns_t t, next;
      lock.unlock();
      if (am->during_wait) am->during_wait();
      sim->settle();
      next = sim->next_event();
      lock.lock();
      {
        std::lock_guard<std::mutex> l{sim->m};
        t = sim->now;
      }
      if (sim->hung) return pred();
      bool woken = false;
      {
        std::lock_guard<std::mutex> l{sim->m};
        woken = sim->notified != seen;
        seen = sim->notified;
      }
      if (woken && pred()) return true;
      if (t >= deadline) return pred();
      lock.unlock();
      sim->advance_to(std::min(next, deadline));
      lock.lock();
      {
        std::lock_guard<std::mutex> l{sim->m};
        woken = sim->notified != seen;
        seen = sim->notified;
        t = sim->now;
      }
      if (woken && pred()) return true;
      if (t >= deadline) return pred();
    }
  }
  // called by the writer
  bool WaitUntil(std::unique_lock<std::mutex>& lock,
                 const Steady::time_point& timeout,
                 std::function<bool()> pred) override {
    exit_mark.used = true;
    ns_t deadline = std::chrono::duration_cast<std::chrono::nanoseconds>(
                        timeout.time_since_epoch())
                        .count();
    for (;;) {
      uint64_t seen;
      {
        std::lock_guard<std::mutex> l{sim->m};
        seen = sim->notified;
      }
      if (pred()) return true;
      std::unique_lock<std::mutex> l{sim->m};
      if (sim->now >= deadline) return pred();
      lock.unlock();
      sim->writer = Sim::Waiting;
      sim->until = deadline;
      sim->seen = seen;
      sim->cv.notify_all();
      sim->cv.wait(l, [&] {
        return sim->notified != seen || sim->now >= deadline;
      });
      sim->writer = Sim::Running;
      l.unlock();
      lock.lock();
    }
  }
};

struct SimTransport : SyncTransporter {
  opentracing::expected<void> Send(const google::protobuf::Message& request,
                                   google::protobuf::Message& response) override {
    AutoModel& w = *am;
    collector::ReportRequest r;
    auto set = [&](const std::string& e) {
      if (sim->error.empty()) sim->error = e;
    };
    if (!r.ParseFromString(request.SerializeAsString()))
      set("report does not parse");
    Report x = read(r);
    std::unique_lock<std::mutex> l{sim->m};
    if (w.disabled || w.dead) set("report sent after the end");
    if (x.spans.empty()) set("empty report");
    if (x.spans != w.pending)
      set("report has " + show(x.spans) + ", buffered were " + show(w.pending));
    if (x.dropped != w.drops)
      set("report counts " + std::to_string(x.dropped) +
          " dropped spans, expected " + std::to_string(w.drops));
    if (x.token != "token" || x.tag != "tag=value") set("wrong report header");
    if (w.reporter && w.reporter != x.reporter) set("reporter id changed");
    w.reporter = x.reporter;
    ++w.sends;
    w.sent += x.spans.size();
    w.pending.clear();
    w.accepted_at.clear();
    w.drops = 0;
    w.sending = true;
    std::pair<ns_t, int> how{0, 0};
    if (!sim->sends.empty()) {
      how = sim->sends.front();
      sim->sends.pop_front();
    }
    if (how.first > 0) {
      sim->writer = Sim::Sending;
      sim->until = sim->now + how.first;
      sim->cv.notify_all();
      sim->cv.wait(l, [&] { return sim->closing || sim->now >= sim->until; });
      sim->writer = Sim::Running;
    }
    w.last_end = sim->now;
    w.sending = false;
    response.Clear();
    if (how.second == 3) {
      ++w.throws;
      w.dead = true;
      l.unlock();
      throw std::runtime_error{"transporter"};
    }
    w.settled_spans += x.spans.size();
    w.settled_at.emplace_back(w.settled_spans, sim->now);
    if (how.second == 1) {
      ++w.failures;
      w.drops += x.dropped + x.spans.size();
      w.all_drops += x.spans.size();
      return opentracing::make_unexpected(
          std::make_error_code(std::errc::network_down));
    }
    w.delivered.insert(w.delivered.end(), x.spans.begin(), x.spans.end());
    w.delivered_drops += x.dropped;
    if (how.second == 2) {
      w.disabled = true;
      auto& resp = dynamic_cast<collector::ReportResponse&>(response);
      resp.add_commands();
      resp.add_commands()->set_disable(true);
    } else if (w.sends % 3 == 0) {
      dynamic_cast<collector::ReportResponse&>(response).add_commands();
    }
    return {};
  }
};
}  // namespace

PROPERTY(auto_history, p.check_memory = true; p.hang_seconds = 60;) {
  Sim s;
  AutoModel w;
  sim = &s;
  am = &w;
  s.driver = std::this_thread::get_id();
  w.c = &c;
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  auto counts = std::make_shared<Counts>();
  bool observed = !c.chance(1, 8);
  auto options = base_options(observed ? counts : nullptr);
  w.limit = c.chance(1, 12) ? 0 : c.range(1, 8);
  w.dynamic = c.chance(1, 4);
  if (w.dynamic) {
    options.max_buffered_spans = std::function<size_t()>{[] {
      std::lock_guard<std::mutex> l{sim->m};
      return am->snapshot = am->limit;
    }};
  } else {
    options.max_buffered_spans = w.limit;
    w.snapshot = w.limit;
  }
  const ns_t ms = 1000000;
  w.period = c.pick(std::vector<ns_t>{500, 100, 1, 7}) * ms;
  // reports only when the buffer is full
  bool never = c.chance(1, 12);
  options.reporting_period = never ? Steady::duration::max() :
      std::chrono::duration_cast<Steady::duration>(
          std::chrono::nanoseconds{w.period});
  std::unique_ptr<AutoRecorder> recorder{new AutoRecorder{
      logger, std::move(options),
      std::unique_ptr<SyncTransporter>{new SimTransport{}},
      std::unique_ptr<ConditionVariableWrapper>{new SimCondition{}}}};
  w.recorder = recorder.get();
  int recorded = 0, rejected = 0, flushes = 0;
  std::string trace;
  std::string error;
  auto check_now = [&] {
    if (!error.empty()) return;
    std::lock_guard<std::mutex> l{s.m};
    if (s.hung) error = "the writer thread hangs";
    else if (!s.error.empty()) error = s.error;
    else if (s.writer == Sim::Waiting) {
      if (!w.pending.empty() && w.pending.size() >= w.snapshot)
        error = "a full buffer is not being sent";
      else if (!w.pending.empty() &&
               !never &&
               s.now - std::max(w.accepted_at[0], w.last_end) > w.period)
        error = "spans waited for more than the reporting period";
    } else if (s.writer == Sim::Exited && !w.disabled && !w.dead) {
      error = "the writer thread is gone";
    }
    if (error.empty() && observed) {
      if (counts->dropped != w.all_drops)
        error = "observer saw " + std::to_string(counts->dropped) +
                " drops, expected " + std::to_string(w.all_drops);
      if (counts->sent != w.sent)
        error = "observer saw " + std::to_string(counts->sent) +
                " spans sent, expected " + std::to_string(w.sent);
      if (counts->flushes < w.sends) error = "fewer flushes seen than reports";
    }
  };
  auto record = [&] {
    sim->settle();
    collector::Span span;
    span.set_operation_name("s" + std::to_string(recorded++));
    {
      std::lock_guard<std::mutex> l{s.m};
      // the report must hold the span if it is accepted and fills the buffer
      if (w.disabled || w.dead || w.pending.size() >= w.snapshot) {
        ++w.drops;
        ++w.all_drops;
        ++rejected;
      } else {
        w.pending.push_back(span.operation_name());
        w.accepted_at.push_back(s.now);
        ++w.accepted;
      }
    }
    recorder->RecordSpan(span);
  };
  int ops = c.range(1, 40);
  for (int i = 0; i < ops && error.empty(); ++i) {
    sim->settle();
    switch (c.weighted({10, 4, 4, 5, 1})) {
      case 0:
        record();
        trace += " record";
        break;
      case 1: {
        ns_t d = c.boolean() ? w.period : c.range(0, 3) * w.period / 2 +
                                              c.range(0, 3);
        ns_t t;
        {
          std::lock_guard<std::mutex> l{s.m};
          t = s.now + d;
        }
        s.advance_to(t);
        trace += " +" + std::to_string(d);
        break;
      }
      case 2: {
        ns_t timeout = c.pick(std::vector<ns_t>{10 * w.period, 0, w.period / 2,
                                                w.period, 3 * w.period, -5});
        if (!never && c.chance(1, 12)) timeout = INT64_MAX;
        ns_t start, end;
        int64_t before;
        bool over, idle;
        {
          std::lock_guard<std::mutex> l{s.m};
          start = s.now;
          before = w.accepted;
          over = w.disabled || w.dead;
          idle = w.pending.empty() && !w.sending && !w.dead;
        }
        int extra = c.chance(1, 3) ? c.range(1, 3) : 0;
        w.during_wait = [&] {
          if (extra > 0) {
            --extra;
            record();
          }
        };
        ++flushes;
        bool ok = recorder->FlushWithTimeout(
            timeout == INT64_MAX
                ? std::chrono::system_clock::duration::max()
                : std::chrono::duration_cast<
                      std::chrono::system_clock::duration>(
                      std::chrono::nanoseconds{timeout}));
        w.during_wait = nullptr;
        std::lock_guard<std::mutex> l{s.m};
        end = s.now;
        trace += (ok ? " flush" : " flush(no)") + std::to_string(timeout);
        if (ok && !over && w.settled_spans < before)
          error = "flush succeeded before the spans were sent";
        if (idle && (!ok || end != start) && error.empty())
          error = "flush of nothing";
        if (!ok && !w.disabled && !w.dead && end - start < timeout)
          error = "flush gave up early";
        if (!ok && !w.disabled && !w.dead && w.settled_spans >= before)
          error = "flush failed although the spans were sent";
        if (ok && !over && error.empty()) {
          ns_t due = start;
          for (auto& x : w.settled_at)
            if (x.first >= before) {
              due = std::max(due, x.second);
              break;
            }
          if (end > due) error = "flush noticed late that the spans were sent";
        }
        if (end - start > std::max<ns_t>(timeout, 0))
          error = "flush took longer than its timeout";
        break;
      }
      case 3: {
        std::lock_guard<std::mutex> l{s.m};
        s.sends.emplace_back(
            c.boolean() ? 0 : c.range(1, 25) * w.period / 10,
            c.weighted({8, 4, 1, 1}) == 0 ? 0 : c.weighted({1, 6, 1, 1}));
        trace += " send:" + std::to_string(s.sends.back().first) + "/" +
                 std::to_string(s.sends.back().second);
        break;
      }
      default:
        if (w.dynamic) {
          std::lock_guard<std::mutex> l{s.m};
          w.limit = c.range(0, 8);
          trace += " limit=" + std::to_string(w.limit);
        }
    }
    s.settle();
    check_now();
  }
  // everything accepted is sent within a period or so
  bool drained = false;
  if (error.empty() && c.boolean()) {
    trace += " drain";
    {
      std::lock_guard<std::mutex> l{s.m};
      s.sends.clear();
    }
    ns_t t;
    {
      std::lock_guard<std::mutex> l{s.m};
      t = s.now + 10 * w.period;
    }
    s.advance_to(t);
    check_now();
    std::lock_guard<std::mutex> l{s.m};
    if (error.empty() && !w.disabled && !w.dead) {
      drained = true;
      if (w.sending || (!never && !w.pending.empty()))
        error = "spans were not sent";
      if (w.pending.size() + w.delivered.size() + w.delivered_drops + w.drops !=
          static_cast<uint64_t>(recorded))
        error = "spans are neither delivered nor counted as dropped";
      std::set<std::string> unique(w.delivered.begin(), w.delivered.end());
      if (unique.size() != w.delivered.size()) error = "span delivered twice";
    }
  }
  {
    std::lock_guard<std::mutex> l{s.m};
    s.closing = true;
    s.sends.clear();
    s.cv.notify_all();
  }
  w.pending.clear();
  s.error.clear();
  recorder.reset();
  sim = nullptr;
  am = nullptr;
  c.note("period ", never ? -1 : w.period, " limit ", w.limit, ":", trace);
  c.check(error.empty(), error);
  c.classify("disabled", w.disabled);
  c.classify("transporter threw", w.throws > 0);
  c.classify("drained", drained);
  c.classify("rejected", rejected > 0);
  if (w.sends > 2 && flushes > 0 && rejected > 0) c.nontrivial();
}

// Real threads and the real condition variable.
PROPERTY(auto_threads, p.concurrent = true; p.hang_seconds = 60;) {
  struct World {
    std::mutex mutex;
    std::vector<Report> ok;
    unsigned mode = 0, sends = 0;
    int64_t failed = 0;
  } w;
  struct Transport : SyncTransporter {
    World& w;
    explicit Transport(World& x) : w(x) {}
    opentracing::expected<void> Send(const google::protobuf::Message& m,
                                     google::protobuf::Message& r) override {
      collector::ReportRequest req;
      req.ParseFromString(m.SerializeAsString());
      r.Clear();
      std::lock_guard<std::mutex> l{w.mutex};
      if (w.mode >> (w.sends++ % 16) & 1) {
        w.failed += req.spans_size();
        return opentracing::make_unexpected(
            std::make_error_code(std::errc::network_down));
      }
      w.ok.push_back(read(req));
      return {};
    }
  };
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  auto counts = std::make_shared<Counts>();
  auto options = base_options(counts);
  size_t capacity = c.range(1, 50);
  options.max_buffered_spans = capacity;
  options.reporting_period = std::chrono::milliseconds{c.range(1, 3)};
  std::chrono::system_clock::duration patience = std::chrono::seconds{30};
  if (c.chance(1, 4)) patience = patience.max();
  w.mode = c.draw(65535);
  int threads = c.range(1, 3), flushers = c.range(0, 2), per = c.range(10, 200);
  c.note(threads, " threads x ", per, ", ", flushers, " flushers, capacity ",
         capacity, ", failing ", w.mode);
  std::vector<std::string> bad;
  {
    AutoRecorder recorder{logger, std::move(options),
                          std::unique_ptr<SyncTransporter>{new Transport{w}}};
    std::atomic<bool> stop{false};
    std::atomic<int> failed_flush{0};
    std::vector<std::thread> ts, fs;
    for (int t = 0; t < threads; ++t) {
      ts.emplace_back([&, t] {
        for (int i = 0; i < per; ++i) {
          collector::Span s;
          s.set_operation_name(std::to_string(t) + ":" + std::to_string(i));
          recorder.RecordSpan(s);
        }
      });
    }
    for (int t = 0; t < flushers; ++t) {
      fs.emplace_back([&] {
        while (!stop)
          if (!recorder.FlushWithTimeout(patience))
            ++failed_flush;
      });
    }
    for (auto& t : ts) t.join();
    stop = true;
    for (auto& t : fs) t.join();
    w.mutex.lock();
    w.mode = 0;
    w.mutex.unlock();
    c.check(recorder.FlushWithTimeout(patience), "flush failed");
    c.check(failed_flush == 0, "a flush failed");
    // one more span carries the last drops
    collector::Span s;
    s.set_operation_name("last");
    recorder.RecordSpan(s);
    c.check(recorder.FlushWithTimeout(std::chrono::seconds{30}), "flush failed");
  }
  std::set<std::string> seen;
  std::vector<int> last(threads, -1);
  int64_t delivered = 0, drops = 0;
  for (auto& r : w.ok) {
    drops += r.dropped;
    for (auto& s : r.spans) {
      ++delivered;
      c.check(seen.insert(s).second, "span ", s, " delivered twice");
      if (s == "last") continue;
      int t = atoi(s.c_str()), i = atoi(s.c_str() + s.find(':') + 1);
      c.check(i > last[t], "span ", s, " out of order");
      last[t] = i;
    }
  }
  c.check(seen.count("last"), "the last span is missing");
  c.equal(delivered + drops, static_cast<int64_t>(threads) * per + 1,
          "spans delivered or reported as dropped");
  c.equal<int64_t>(counts->dropped, drops, "drops seen by the observer");
  if (w.sends > 2 && threads > 1) c.nontrivial();
}
