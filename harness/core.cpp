// The small building blocks: metrics accounting, clocks, randomness, addresses,
// sockets, containers, protobuf wire framing, endpoint lists.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sys/socket.h>
#include <chrono>
#include <deque>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <thread>
#include "common/fast_random_number_generator.h"
#include "common/flat_map.h"
#include "common/function_ref.h"
#include "common/protobuf.h"
#include "common/random.h"
#include "common/random_traverser.h"
#include "common/report_request_framing.h"
#include "common/serialization.h"
#include "common/timestamp.h"
#include "common/utility.h"
#include "network/ip_address.h"
#include "network/socket.h"
#include "pbt.hpp"
#include "recorder/metrics_tracker.h"
#include "recorder/serialization/embedded_metrics_message.h"
#include "recorder/stream_recorder/utility.h"

#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/unknown_field_set.h>
#include <google/protobuf/util/message_differencer.h>

using namespace lightstep;
using google::protobuf::io::ArrayInputStream;
using google::protobuf::io::CodedInputStream;
using google::protobuf::io::CodedOutputStream;
using google::protobuf::io::StringOutputStream;

namespace {
struct Observer : MetricsObserver {
  int sent = 0, dropped = 0, flushes = 0;
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
  void OnFlush() noexcept override { ++flushes; }
};
}  // namespace

// ---------------------------------------------------------------------------
// P06
PROPERTY(metrics_history) {
  Observer o;
  MetricsTracker t{o};
  int dropped = 0, sent = 0, flushes = 0, pending = 0;
  std::vector<int> held;  // consumed and not yet delivered or given back
  int steps = c.range(1, 60), gave_back = 0;
  for (int i = 0; i < steps; ++i) {
    switch (c.weighted({4, 2, 1, 3, 2, 2, 1})) {
      case 0: {
        int n = c.range(0, 40);
        c.note("dropped ", n);
        t.OnSpansDropped(n);
        dropped += n;
        pending += n;
        break;
      }
      case 1: {
        int n = c.range(0, 40);
        c.note("sent ", n);
        t.OnSpansSent(n);
        sent += n;
        break;
      }
      case 2:
        c.note("flush");
        t.OnFlush();
        ++flushes;
        break;
      case 3: {
        int n = t.ConsumeDroppedSpans();
        c.note("consume");
        c.equal(n, pending, "consumed dropped spans");
        pending = 0;
        held.push_back(n);
        break;
      }
      case 4:
        if (!held.empty()) {  // the report failed
          size_t k = c.range(0, held.size() - 1);
          c.note("give back ", held[k]);
          t.UnconsumeDroppedSpans(held[k]);
          pending += held[k];
          held.erase(held.begin() + k);
          ++gave_back;
        }
        break;
      case 5:
        if (!held.empty()) held.pop_back();  // delivered
        break;
      case 6: {
        int n = c.range(0, 3);
        for (int k = 0; k < n; ++k) t.OnSpansDropped(0);
        break;
      }
    }
    c.equal(t.num_dropped_spans(), pending, "pending dropped spans");
    c.equal(o.dropped, dropped, "dropped spans seen by the observer");
    c.equal(o.sent, sent, "sent spans seen by the observer");
    c.equal(o.flushes, flushes, "flushes seen by the observer");
  }
  if (gave_back && dropped > 0) c.nontrivial();
}

PROPERTY(metrics_message) {
  EmbeddedMetricsMessage m;
  int steps = c.range(1, 12);
  int value = 0;
  c.equal(m.num_dropped_spans(), 0, "initial count");
  for (int i = 0; i < steps; ++i) {
    if (c.chance(2, 3)) {
      value = static_cast<int>(c.u64() & 0x7fffffff);
      if (c.boolean()) value = c.range(0, 300);
      c.note("set ", value);
      m.set_num_dropped_spans(value);
    }
    c.equal(m.num_dropped_spans(), value, "count");
    if (c.chance(2, 3)) {
      auto f = m.MakeFragment();
      collector::ReportRequest r;
      c.check(f.second >= 0, "negative fragment length");
      c.check(r.ParseFromArray(f.first, f.second), "fragment does not parse");
      c.check(r.has_internal_metrics(), "no metrics");
      c.equal(r.internal_metrics().counts_size(), 1, "number of counts");
      c.equal(r.internal_metrics().counts(0).name(),
              std::string("spans.dropped"), "name");
      c.equal(r.internal_metrics().counts(0).int_value(),
              static_cast<int64_t>(value), "value");
      c.equal(r.spans_size(), 0, "spans");
      collector::ReportRequest again;
      again.mutable_internal_metrics()->CopyFrom(r.internal_metrics());
      c.equal(static_cast<size_t>(f.second), again.ByteSizeLong(), "size");
      if (value >= 128) c.nontrivial();
    }
  }
}

namespace {
struct AtomicObserver : MetricsObserver {
  std::atomic<int64_t> sent{0}, dropped{0}, flushes{0};
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
  void OnFlush() noexcept override { ++flushes; }
};
}  // namespace

PROPERTY(metrics_threads, p.concurrent = true;) {
  AtomicObserver o;
  MetricsTracker t{o};
  int droppers = c.range(1, 3), consumers = c.range(1, 2);
  int per = c.range(50, 1500);
  std::vector<std::vector<int>> amounts(droppers);
  int64_t total = 0;
  for (auto& a : amounts) {
    for (int i = 0; i < 8; ++i) a.push_back(c.range(0, 5));
    for (int i = 0; i < per; ++i) total += a[i % 8];
  }
  unsigned give_mask = c.range(0, 7);
  c.note(droppers, " droppers x ", per, ", ", consumers, " consumers, mask ",
         give_mask);
  std::atomic<bool> stop{false};
  std::atomic<int64_t> delivered{0};
  std::vector<std::thread> ts, cs;
  for (int d = 0; d < droppers; ++d) {
    ts.emplace_back([&, d] {
      for (int i = 0; i < per; ++i) t.OnSpansDropped(amounts[d][i % 8]);
    });
  }
  for (int k = 0; k < consumers; ++k) {
    cs.emplace_back([&] {
      unsigned i = 0;
      while (!stop) {
        int n = t.ConsumeDroppedSpans();
        if (give_mask & (1u << (i++ % 3))) {
          t.UnconsumeDroppedSpans(n);
        } else {
          delivered += n;
        }
      }
    });
  }
  for (auto& x : ts) x.join();
  stop = true;
  for (auto& x : cs) x.join();
  c.equal(delivered + t.num_dropped_spans(), total,
          "dropped spans delivered or still pending");
  c.equal(o.dropped.load(), total, "dropped spans seen by the observer");
  if (total > 0) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P08.  The clocks are replaced so that readings are inputs.
namespace {
bool fake_clocks = false;
int64_t fake_steady = 0, fake_system = 0;
std::vector<int64_t> steady_reads, system_reads, clock_steps;
size_t clock_index = 0;
void advance_clocks() {
  if (clock_steps.empty()) return;
  fake_steady += clock_steps[clock_index % clock_steps.size()];
  fake_system += clock_steps[clock_index % clock_steps.size()];
  ++clock_index;
}
}  // namespace
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  if (fake_clocks) {
    advance_clocks();
    system_reads.push_back(fake_system);
    return time_point{duration_cast<duration>(nanoseconds{fake_system})};
  }
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return time_point{duration_cast<duration>(seconds{ts.tv_sec} +
                                            nanoseconds{ts.tv_nsec})};
}
steady_clock::time_point steady_clock::now() noexcept {
  if (fake_clocks) {
    advance_clocks();
    steady_reads.push_back(fake_steady);
    return time_point{duration_cast<duration>(nanoseconds{fake_steady})};
  }
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point{duration_cast<duration>(seconds{ts.tv_sec} +
                                            nanoseconds{ts.tv_nsec})};
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

namespace {
// Nanoseconds in +-146 years, so that sums of two stay representable.
int64_t gen_nanos(pbt::Case& c) {
  int64_t v;
  switch (c.draw(4)) {
    case 0: v = c.range(0, 5000000000ll); break;
    case 1: v = 1500000000000000000ll + c.range(0, 200000000000000000ll); break;
    case 2: v = static_cast<int64_t>(c.u64()); break;
    case 3: v = c.range(-3, 3) * 1000000000ll + c.range(-2, 2); break;
    default: v = -c.range(0, 5000000000ll);
  }
  return v % 4600000000000000000ll;
}
typedef std::chrono::system_clock Sys;
typedef std::chrono::steady_clock Steady;
Sys::time_point sys_at(int64_t n) {
  return Sys::time_point{std::chrono::duration_cast<Sys::duration>(
      std::chrono::nanoseconds{n})};
}
Steady::time_point steady_at(int64_t n) {
  return Steady::time_point{std::chrono::duration_cast<Steady::duration>(
      std::chrono::nanoseconds{n})};
}
int64_t nanos(Sys::time_point t) {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(
             t.time_since_epoch()).count();
}
int64_t nanos(Steady::time_point t) {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(
             t.time_since_epoch()).count();
}
}  // namespace

PROPERTY(clock_conversion) {
  int64_t delta = gen_nanos(c), t = gen_nanos(c), u = gen_nanos(c) / 1000;
  c.note("delta ", delta, " time ", t, " interval ", u);
  auto sys = ToSystemTimestamp(delta, steady_at(t));
  c.equal(nanos(sys), t + delta, "system time of a steady time");
  c.equal(nanos(ToSteadyTimestamp(delta, sys)), t, "round trip");
  auto st = ToSteadyTimestamp(delta, sys_at(t));
  c.equal(nanos(st), t - delta, "steady time of a system time");
  c.equal(nanos(ToSystemTimestamp(delta, st)), t, "round trip from system");
  // intervals are preserved
  if (std::abs(t) < 4000000000000000000ll) {
    auto a = ToSystemTimestamp(delta, steady_at(t));
    auto b = ToSystemTimestamp(delta, steady_at(t + u));
    c.equal(nanos(b) - nanos(a), u, "interval");
  }
  if (delta != 0 && t != 0) c.nontrivial();
}

PROPERTY(clock_delta) {
  fake_steady = c.range(0, 4000000000000000000ll);
  fake_system = gen_nanos(c) / 2;
  if (c.boolean()) fake_steady = c.range(0, 1000000000000ll);
  clock_steps.clear();
  int n = c.range(0, 3);
  for (int i = 0; i < n; ++i) clock_steps.push_back(c.range(0, 5000000));
  clock_index = 0;
  steady_reads.clear();
  system_reads.clear();
  c.note("steady ", fake_steady, " system ", fake_system, " steps ", n);
  fake_clocks = true;
  int64_t delta = ComputeSystemSteadyTimestampDelta();
  fake_clocks = false;
  if (steady_reads.empty() || system_reads.empty()) {
    // reads its clocks some other way: bracket it instead
    auto read = [](clockid_t id) {
      timespec ts;
      clock_gettime(id, &ts);
      return ts.tv_sec * 1000000000ll + ts.tv_nsec;
    };
    int64_t s0 = read(CLOCK_MONOTONIC), w0 = read(CLOCK_REALTIME);
    delta = ComputeSystemSteadyTimestampDelta();
    int64_t w1 = read(CLOCK_REALTIME), s1 = read(CLOCK_MONOTONIC);
    c.check(delta >= w0 - s1 && delta <= w1 - s0, "delta out of bracket");
    return;
  }
  int64_t lo = INT64_MAX, hi = INT64_MIN;
  for (int64_t a : system_reads) {
    for (int64_t b : steady_reads) {
      lo = std::min(lo, a - b);
      hi = std::max(hi, a - b);
    }
  }
  c.check(delta >= lo && delta <= hi, "delta ", delta, " not in [", lo, ",", hi,
          "]");
  // so a steady reading converts to the system time it was read at
  int64_t st = steady_reads.back();
  int64_t got = nanos(ToSystemTimestamp(delta, steady_at(st)));
  c.check(std::llabs(got - system_reads.back()) <= 10000000ll * 3,
          "converted reading off by ", got - system_reads.back());
  if (n > 0) c.nontrivial();
}

PROPERTY(timestamp_format) {
  int64_t t = gen_nanos(c) * (c.chance(1, 8) ? 2 : 1);
  c.note("nanoseconds ", t);
  __int128 want = t;
  auto check = [&](__int128 s, int64_t n, const char* what) {
    c.check(n >= 0 && n < 1000000000, what, ": nanos out of range: ", n);
    c.check(s * 1000000000 + n == want, what, ": ", static_cast<int64_t>(s),
            "s + ", n, "ns is not the time");
  };
  auto proto = ToTimestamp(sys_at(t));
  check(proto.seconds(), proto.nanos(), "ToTimestamp");
  auto fmt = ProtobufFormatTimestamp(sys_at(t));
  check(static_cast<int64_t>(std::get<0>(fmt)),
        static_cast<int64_t>(std::get<1>(fmt)), "ProtobufFormatTimestamp");
  // what the serializer writes is what a parser reads
  std::string s;
  {
    StringOutputStream os{&s};
    CodedOutputStream co{&os};
    WriteTimestamp<3>(co, sys_at(t));
  }
  collector::Span span;  // start_timestamp
  c.equal(static_cast<int>(collector::Span::kStartTimestampFieldNumber) >= 1,
          true, "field");
  google::protobuf::UnknownFieldSet u;
  c.check(u.ParseFromString(s), "timestamp field does not parse");
  c.equal(u.field_count(), 1, "fields");
  c.equal(u.field(0).number(), 3, "field number");
  google::protobuf::Timestamp ts;
  c.check(ts.ParseFromString(u.field(0).length_delimited()),
          "timestamp does not parse");
  check(ts.seconds(), ts.nanos(), "WriteTimestamp");
  if (t % 1000000000 != 0) c.nontrivial();
  c.classify("before 1970", t < 0);
}

PROPERTY(timeval) {
  int64_t us = static_cast<int64_t>(c.u64() & 0x7fffffffffffffffull);
  if (c.boolean()) us = c.range(0, 10000000);
  c.note(us, "us");
  auto tv = ToTimeval(std::chrono::microseconds{us});
  c.check(tv.tv_usec >= 0 && tv.tv_usec < 1000000, "tv_usec ", tv.tv_usec);
  c.check(tv.tv_sec >= 0, "tv_sec ", tv.tv_sec);
  c.equal(static_cast<int64_t>(tv.tv_sec) * 1000000 + tv.tv_usec, us, "time");
  if (us % 1000000 && us >= 1000000) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P09
namespace {
struct MockSeed {
  std::vector<uint32_t> words;
  size_t written = 0;
  template <class It>
  void generate(It first, It last) {
    while (first != last) *first++ = words[written++ % words.size()];
  }
};
}  // namespace

PROPERTY(generator_reference) {
  std::vector<uint32_t> words;
  for (int i = 0; i < 4; ++i) words.push_back(static_cast<uint32_t>(c.u64()));
  c.note("seed words ", words[0], ",", words[1], ",", words[2], ",", words[3]);
  MockSeed seed{words};
  FastRandomNumberGenerator g{seed};
  c.equal(seed.written, size_t(4), "seed words used");
  uint64_t a = words[0] | static_cast<uint64_t>(words[1]) << 32;
  uint64_t b = words[2] | static_cast<uint64_t>(words[3]) << 32;
  int n = c.range(1, 40);
  FastRandomNumberGenerator copy;
  copy = g;
  for (int i = 0; i < n; ++i) {
    uint64_t t = a, s = b;
    a = s;
    t ^= t << 23;
    t ^= t >> 17;
    t ^= s ^ (s >> 26);
    b = t;
    uint64_t x = g();
    c.equal(x, t + s, "output " + std::to_string(i));
    c.equal(copy(), x, "output of a copy");
  }
  c.check(FastRandomNumberGenerator::min() == 0 &&
              FastRandomNumberGenerator::max() == UINT64_MAX,
          "range");
  MockSeed again{words};
  g.seed(again);
  MockSeed third{words};
  FastRandomNumberGenerator h{third};
  c.equal(g(), h(), "first output after seeding again");
  if (n > 2 && (a | b)) c.nontrivial();
}

PROPERTY(random_duration) {
  int64_t a = gen_nanos(c), width = 0;
  switch (c.draw(2)) {
    case 0: width = c.range(0, 3); break;
    case 1: width = c.range(0, 1000000); break;
    default: width = static_cast<int64_t>(c.u64() & 0x3fffffffffffffffull);
  }
  if (a > 0 && width > INT64_MAX - a) width = 0;
  int64_t b = a + width;
  c.note("[", a, ",", b, "]");
  std::set<int64_t> seen;
  int n = width <= 3 ? 200 : 20;
  for (int i = 0; i < n; ++i) {
    int64_t x = GenerateRandomDuration(std::chrono::nanoseconds{a},
                                       std::chrono::nanoseconds{b}).count();
    c.check(x >= a && x <= b, "duration ", x, " out of range");
    seen.insert(x);
  }
  if (width <= 3) {
    // 4 * (3/4)^200 < 1e-24
    c.equal(seen.size(), static_cast<size_t>(width + 1), "values reached");
  } else if (width > 1000) {
    c.check(seen.size() > 1, "20 equal durations");
  }
  // other units
  int64_t am = c.range(-1000000, 1000000), bm = am + c.range(0, 100000);
  auto ms = GenerateRandomDuration(std::chrono::milliseconds{am},
                                   std::chrono::milliseconds{bm});
  c.check(ms.count() >= am && ms.count() <= bm, "milliseconds out of range");
  if (width > 0) c.nontrivial();
}

PROPERTY(random_traversal) {
  int n = c.size(200);
  RandomTraverser t{n};
  int rounds = c.range(1, 4);
  c.note("n ", n);
  for (int r = 0; r < rounds; ++r) {
    int stop = c.chance(1, 2) ? c.range(0, n + 1) : n + 1;
    c.note("stop after ", stop);
    std::vector<int> seen;
    bool res = t.ForEachIndex([&](int i) {
      seen.push_back(i);
      return static_cast<int>(seen.size()) != stop;
    });
    bool exited = stop >= 1 && stop <= n;
    c.equal(res, !exited, "result");
    c.equal(seen.size(), static_cast<size_t>(exited ? stop : n), "calls");
    std::set<int> s(seen.begin(), seen.end());
    c.equal(s.size(), seen.size(), "distinct indexes");
    if (!s.empty()) {
      c.check(*s.begin() >= 0 && *s.rbegin() < n, "index out of range");
    }
    if (exited && stop > 1) c.nontrivial();
  }
  if (n == 3 || n == 4) {  // every order is reachable
    std::set<std::vector<int>> orders;
    for (int i = 0; i < (n == 3 ? 400 : 1800); ++i) {
      std::vector<int> o;
      t.ForEachIndex([&](int k) {
        o.push_back(k);
        return true;
      });
      orders.insert(o);
    }
    // 24 * (23/24)^1800 < 1e-31
    c.equal(orders.size(), size_t(n == 3 ? 6 : 24), "orders reached");
  }
}

// Ids of all threads of all processes of a random fork tree are different.
namespace {
struct IdPool {
  std::atomic<uint32_t> n;
  uint64_t ids[1 << 14];
};
void gen_ids(IdPool* pool, int n, bool batch) {
  for (int i = 0; i < n; ++i) {
    if (batch && i + 2 <= n) {
      auto a = GenerateIds<2>();
      uint32_t k = pool->n.fetch_add(2);
      if (k + 1 < (1 << 14)) {
        pool->ids[k] = a[0];
        pool->ids[k + 1] = a[1];
      }
      ++i;
    } else {
      uint32_t k = pool->n.fetch_add(1);
      if (k < (1 << 14)) pool->ids[k] = GenerateId();
    }
  }
}
void id_tree(pbt::Case& c, IdPool* pool, int depth) {
  int steps = c.range(1, 4);
  for (int s = 0; s < steps; ++s) {
    switch (c.weighted({3, 2, depth > 0 ? 3u : 0u})) {
      case 0: {
        int n = c.range(1, 4);
        c.note("ids ", n);
        gen_ids(pool, n, c.boolean());
        break;
      }
      case 1: {
        int n = c.range(1, 3);
        c.note("threads ", n);
        std::vector<std::thread> ts;
        for (int i = 0; i < n; ++i) {
          ts.emplace_back([=] { gen_ids(pool, 3, false); });
        }
        for (auto& t : ts) t.join();
        break;
      }
      case 2: {
        bool from_thread = c.chance(1, 4);
        c.note(from_thread ? "fork in a thread {" : "fork {");
        // the child's choices are taken from the parent's stream so that the
        // case stays a function of one sequence
        int child_ids = c.range(1, 4);
        bool grandchild = c.boolean();
        auto body = [&] {
          pid_t p = fork();
          if (p == 0) {
            gen_ids(pool, child_ids, false);
            if (grandchild) {
              pid_t q = fork();
              if (q == 0) {
                gen_ids(pool, child_ids, true);
                _exit(0);
              }
              gen_ids(pool, 1, false);
              if (q > 0) waitpid(q, nullptr, 0);
            }
            _exit(0);
          }
          if (p > 0) waitpid(p, nullptr, 0);
        };
        if (from_thread) {
          std::thread t([&] {
            gen_ids(pool, 1, false);
            body();
            gen_ids(pool, 1, false);
          });
          t.join();
        } else {
          body();
        }
        c.nontrivial();
        c.note("}");
        break;
      }
    }
  }
}
}  // namespace

PROPERTY(ids_across_forks) {
  auto pool = static_cast<IdPool*>(mmap(nullptr, sizeof(IdPool),
                                        PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (pool == MAP_FAILED) {
    c.exclude("mmap");
    return;
  }
  // a thread of its own, so that the first use of the generator is part of the
  // case
  std::exception_ptr ex;
  std::string failed;
  std::thread t([&] {
    try {
      if (c.boolean()) gen_ids(pool, 2, false);
      id_tree(c, pool, 1);
    } catch (const pbt::Failure& f) {
      failed = f.message;
    }
  });
  t.join();
  std::vector<uint64_t> ids(pool->ids,
                            pool->ids + std::min<uint32_t>(pool->n, 1 << 14));
  munmap(pool, sizeof(IdPool));
  c.check(failed.empty(), failed);
  std::set<uint64_t> s(ids.begin(), ids.end());
  // for 100 ids a clash by chance has probability below 1e-15
  c.equal(s.size(), ids.size(), "distinct ids");
}

// ---------------------------------------------------------------------------
// P10
namespace {
struct Addr {
  bool v6;
  unsigned char b[16];
  uint16_t port;
  uint32_t scope, flow;
  std::string text() const {
    char buf[INET6_ADDRSTRLEN];
    inet_ntop(v6 ? AF_INET6 : AF_INET, b, buf, sizeof buf);
    return buf;
  }
  bool operator==(const Addr& o) const {
    return v6 == o.v6 && memcmp(b, o.b, v6 ? 16 : 4) == 0 && port == o.port &&
           (!v6 || (scope == o.scope && flow == o.flow));
  }
};
Addr gen_addr(pbt::Case& c) {
  Addr a;
  memset(&a, 0, sizeof a);
  a.v6 = c.boolean();
  int n = a.v6 ? 16 : 4;
  for (int i = 0; i < n; ++i) {
    a.b[i] = c.chance(1, 2) ? 0 : c.range(0, 255);
  }
  if (a.v6 && c.chance(1, 4)) {  // embedded IPv4
    memset(a.b, 0, 10);
    a.b[10] = a.b[11] = c.boolean() ? 255 : 0;
  }
  return a;
}
}  // namespace

PROPERTY(ip_address) {
  Addr m[2];
  std::unique_ptr<IpAddress> ip[2];
  int how[2];
  for (int k = 0; k < 2; ++k) {
    if (k == 1 && c.chance(1, 2)) {
      m[1] = m[0];
      // perhaps change one thing
      switch (c.draw(2)) {
        case 0: break;
        case 1: m[1].b[c.range(0, m[1].v6 ? 15 : 3)] ^= 1 << c.range(0, 7); break;
        default: m[1].port ^= 1 << c.range(0, 15);
      }
    } else {
      m[k] = gen_addr(c);
      m[k].port = c.chance(1, 2) ? c.range(0, 65535) : 0;
    }
    how[k] = c.range(0, 4);
    if (how[k] == 3 && m[k].v6 && c.chance(1, 3)) {
      // only the system's structure has these
      m[k].scope = c.boolean() ? c.range(1, 3) : static_cast<uint32_t>(c.u64());
      if (c.boolean()) m[k].flow = static_cast<uint32_t>(c.u64());
    } else if (how[k] != 3) {
      m[k].scope = m[k].flow = 0;
    }
    std::string text = m[k].text();
    c.note(text, " port ", m[k].port, " how ", how[k]);
    in_addr a4;
    in6_addr a6;
    memcpy(&a4, m[k].b, 4);
    memcpy(&a6, m[k].b, 16);
    switch (how[k]) {
      case 0:
        if (m[k].v6) {
          ip[k].reset(new IpAddress(a6));
        } else {
          ip[k].reset(new IpAddress(a4));
        }
        if (m[k].port || c.boolean()) ip[k]->set_port(m[k].port);
        break;
      case 1:
        ip[k].reset(new IpAddress(text.c_str()));
        c.equal(ip[k]->addr().sa_family == AF_INET
                    ? ip[k]->ipv4_address().sin_port
                    : ip[k]->ipv6_address().sin6_port,
                in_port_t(0), "port of an address without one");
        if (m[k].port) ip[k]->set_port(m[k].port);
        break;
      case 2:
        ip[k].reset(new IpAddress(text.c_str(), m[k].port));
        break;
      case 3: {  // from the system's structure, whose padding may hold anything
        sockaddr_storage st;
        memset(&st, c.range(0, 255), sizeof st);
        if (m[k].v6) {
          auto& s = reinterpret_cast<sockaddr_in6&>(st);
          s.sin6_family = AF_INET6;
          s.sin6_port = htons(m[k].port);
          s.sin6_addr = a6;
          s.sin6_flowinfo = m[k].flow;
          s.sin6_scope_id = m[k].scope;
        } else {
          auto& s = reinterpret_cast<sockaddr_in&>(st);
          s.sin_family = AF_INET;
          s.sin_port = htons(m[k].port);
          s.sin_addr = a4;
        }
        ip[k].reset(new IpAddress(reinterpret_cast<const sockaddr&>(st)));
        break;
      }
      default: {  // through another address
        IpAddress tmp{text.c_str(), m[k].port};
        ip[k].reset(new IpAddress(tmp.addr()));
      }
    }
    c.equal(ip[k]->family(), m[k].v6 ? AF_INET6 : AF_INET, "family");
    c.equal(static_cast<int>(ip[k]->addr().sa_family), ip[k]->family(),
            "sockaddr family");
    if (m[k].v6) {
      auto& s = ip[k]->ipv6_address();
      c.check(memcmp(&s.sin6_addr, m[k].b, 16) == 0, "address bytes");
      c.equal(ntohs(s.sin6_port), m[k].port, "port");
      c.equal(s.sin6_scope_id, m[k].scope, "scope");
      c.equal(s.sin6_flowinfo, m[k].flow, "flow");
    } else {
      auto& s = ip[k]->ipv4_address();
      c.check(memcmp(&s.sin_addr, m[k].b, 4) == 0, "address bytes");
      c.equal(ntohs(s.sin_port), m[k].port, "port");
    }
    c.equal(ToString(*ip[k]), text, "text");
    std::ostringstream os;
    os << *ip[k];
    c.equal(os.str(), text, "printed text");
    IpAddress back{ToString(*ip[k]).c_str(), m[k].port};
    bool plain = !m[k].scope && !m[k].flow;
    c.check((back == *ip[k]) == plain && (back != *ip[k]) == !plain,
            "round trip through text");
  }
  bool eq = m[0] == m[1];
  c.equal(*ip[0] == *ip[1], eq, "a == b");
  c.equal(*ip[1] == *ip[0], eq, "b == a");
  c.equal(*ip[0] != *ip[1], !eq, "a != b");
  IpAddress dflt;
  c.equal(ToString(dflt), std::string("0.0.0.0"), "default address");
  if (how[0] != how[1]) c.nontrivial();
}

PROPERTY(ip_address_text) {
  std::string s;
  switch (c.draw(3)) {
    case 0: s = c.over("0123456789.", c.size(18)); break;
    case 1: s = c.over("0123456789abcdefABCDEF::.", c.size(40)); break;
    case 2: s = gen_addr(c).text(); break;
    default: s = c.bytes(c.size(20));
  }
  if (c.chance(1, 3) && !s.empty()) {
    size_t i = c.range(0, s.size() - 1);
    s[i] = c.over("0:. f%[]/g", 1)[0];
  }
  if (c.chance(1, 6)) s += c.over(" :.0/", 1);
  s = s.c_str();  // up to the first NUL
  c.note(pbt::Case::quote(s));
  unsigned char b4[4], b6[16];
  bool v4 = inet_pton(AF_INET, s.c_str(), b4) == 1;
  bool v6 = !v4 && inet_pton(AF_INET6, s.c_str(), b6) == 1;
  try {
    IpAddress ip{s.c_str()};
    c.check(v4 || v6, "accepted text that is no address");
    c.equal(ip.family(), v4 ? AF_INET : AF_INET6, "family");
    if (v4) {
      c.check(memcmp(&ip.ipv4_address().sin_addr, b4, 4) == 0, "bytes");
    } else {
      c.check(memcmp(&ip.ipv6_address().sin6_addr, b6, 16) == 0, "bytes");
    }
    c.nontrivial();
    c.classify("valid");
  } catch (const std::runtime_error& e) {
    c.check(!v4 && !v6, "rejected an address: ", e.what());
    c.classify("invalid");
  }
}

// ---------------------------------------------------------------------------
// P11
namespace {
bool watch_close = false;
std::map<int, int> closes;
int bad_closes = 0;
}  // namespace
extern "C" int __real_close(int);
extern "C" int __wrap_close(int fd) {
  int r = __real_close(fd);
  if (watch_close) {
    ++closes[fd];
    if (r == -1) ++bad_closes;
  }
  return r;
}

namespace {
struct Listener {
  int fd = -1;
  sockaddr_storage addr;
  socklen_t len = 0;
  bool open(bool v6, bool listening) {
    memset(&addr, 0, sizeof addr);
    fd = ::socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
    if (fd < 0) return false;
    if (v6) {
      auto& a = reinterpret_cast<sockaddr_in6&>(addr);
      a.sin6_family = AF_INET6;
      a.sin6_addr = in6addr_loopback;
      len = sizeof a;
    } else {
      auto& a = reinterpret_cast<sockaddr_in&>(addr);
      a.sin_family = AF_INET;
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      len = sizeof a;
    }
    if (::bind(fd, reinterpret_cast<sockaddr*>(&addr), len) != 0) return false;
    getsockname(fd, reinterpret_cast<sockaddr*>(&addr), &len);
    if (listening) ::listen(fd, 16);
    return true;
  }
  ~Listener() {
    if (fd >= 0) __real_close(fd);
  }
};
}  // namespace

PROPERTY(socket_ownership, p.check_fds = true;) {
  watch_close = false;
  closes.clear();
  bad_closes = 0;
  // A process that closed its standard input gets descriptor 0 for a socket.
  struct WithoutInput {
    int saved = -1;
    explicit WithoutInput(bool on) {
      if (!on) return;
      saved = fcntl(0, F_DUPFD, 200);
      if (saved >= 0) __real_close(0);
    }
    ~WithoutInput() {
      if (saved < 0) return;
      dup2(saved, 0);
      __real_close(saved);
    }
  } without{c.chance(1, 4)};
  if (without.saved >= 0) c.classify("descriptor 0 free");
  std::vector<std::unique_ptr<Socket>> pool;
  std::vector<int> owned;  // parallel: descriptor or -1
  std::string trouble;
  int before = pbt::count_fds();
  watch_close = true;
  auto is_open = [](int fd) { return fcntl(fd, F_GETFD) != -1; };
  int expected_closes = 0;
  auto total_closes = [&] {
    int n = 0;
    for (auto& k : closes) n += k.second;
    return n;
  };
  int steps = c.range(1, 25), moves = 0;
  for (int i = 0; i < steps; ++i) {
    size_t n = pool.size();
    size_t at = n ? c.range(0, n - 1) : 0;
    switch (c.weighted({4, 3, 3, 3, 2, 1, 1})) {
      case 0: {  // create
        int kind = c.range(0, 3);
        c.note("create ", kind);
        if (kind == 0) {
          pool.emplace_back(new Socket);
        } else if (kind == 1) {
          pool.emplace_back(new Socket{AF_INET6, SOCK_STREAM});
        } else if (kind == 2) {
          pool.emplace_back(new Socket{AF_INET, SOCK_DGRAM});
        } else {
          int fd = ::socket(AF_INET, SOCK_STREAM, 0);
          pool.emplace_back(new Socket{fd});
          c.equal(pool.back()->file_descriptor(), fd, "adopted descriptor");
        }
        owned.push_back(pool.back()->file_descriptor());
        break;
      }
      case 1:  // destroy
        if (n) {
          c.note("destroy ", at);
          if (owned[at] != -1) ++expected_closes;
          pool.erase(pool.begin() + at);
          owned.erase(owned.begin() + at);
        }
        break;
      case 2:  // move construct
        if (n) {
          c.note("move out of ", at);
          pool.emplace_back(new Socket{std::move(*pool[at])});
          owned.push_back(owned[at]);
          owned[at] = -1;
          ++moves;
        }
        break;
      case 3:  // move assign
        if (n > 1) {
          size_t to = c.range(0, n - 1);
          if (to == at) break;
          c.note("assign ", to, " = ", at);
          if (owned[to] != -1) ++expected_closes;
          *pool[to] = std::move(*pool[at]);
          owned[to] = owned[at];
          owned[at] = -1;
          ++moves;
        }
        break;
      case 4:  // options
        if (n && owned[at] != -1) {
          int fl = fcntl(owned[at], F_GETFL);
          if (c.boolean()) {
            fcntl(owned[at], F_SETFL, fl | O_ASYNC);
            fl = fcntl(owned[at], F_GETFL);
          }
          c.note("options ", at);
          pool[at]->SetNonblocking();
          c.equal(fcntl(owned[at], F_GETFL), fl | O_NONBLOCK, "status flags");
          int v = 0;
          socklen_t vl = sizeof v;
          pool[at]->SetReuseAddress();
          getsockopt(owned[at], SOL_SOCKET, SO_REUSEADDR, &v, &vl);
          c.check(v != 0, "SO_REUSEADDR not set");
          fcntl(owned[at], F_SETFL, fl & ~(O_ASYNC | O_NONBLOCK));
        }
        break;
      case 5: {  // a socket that cannot be made
        c.note("bad create");
        bool threw = false;
        try {
          Socket s{12345, SOCK_STREAM};
        } catch (const std::runtime_error&) {
          threw = true;
        }
        c.check(threw, "no error for an unknown family");
        break;
      }
      case 6: {  // no descriptor at all: options are refused
        c.note("options of an empty socket");
        Socket s{InvalidSocket};
        int threw = 0;
        try {
          s.SetNonblocking();
        } catch (const std::runtime_error&) {
          ++threw;
        }
        try {
          s.SetReuseAddress();
        } catch (const std::runtime_error&) {
          ++threw;
        }
        c.equal(threw, 2, "errors for an empty socket");
        break;
      }
    }
    int live = 0;
    for (size_t k = 0; k < pool.size(); ++k) {
      c.equal(pool[k]->file_descriptor(), owned[k] == -1 ? -1 : owned[k],
              "descriptor of socket " + std::to_string(k));
      if (owned[k] != -1) {
        ++live;
        c.check(is_open(owned[k]), "socket's descriptor was closed");
      }
    }
    c.equal(total_closes(), expected_closes, "descriptors closed");
    c.equal(bad_closes, 0, "closes of a descriptor that is not open");
    c.equal(pbt::count_fds() - before, live, "descriptors open");
  }
  for (int fd : owned) expected_closes += fd != -1;
  pool.clear();
  watch_close = false;
  c.equal(total_closes(), expected_closes, "descriptors closed at the end");
  c.equal(bad_closes, 0, "closes of a descriptor that is not open");
  c.equal(pbt::count_fds(), before, "descriptors left open");
  if (moves > 1) c.nontrivial();
}

PROPERTY(socket_connect, p.check_fds = true;) {
  int kind = c.weighted({3, 2, 2, 2, 1});
  Listener l;
  int before = pbt::count_fds();
  watch_close = false;
  auto connect_to = [&](const IpAddress& ip, bool expect_peer) {
    int fd = -1;
    try {
      Socket s = Connect(ip);
      fd = s.file_descriptor();
      c.check(fd >= 0, "no descriptor");
      c.check(fcntl(fd, F_GETFL) & O_NONBLOCK, "socket blocks");
      int v = 0;
      socklen_t vl = sizeof v;
      getsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &v, &vl);
      c.check(v != 0, "SO_REUSEADDR not set");
      getsockopt(fd, SOL_SOCKET, SO_TYPE, &v, &vl);
      c.equal(v, SOCK_STREAM, "socket type");
      if (expect_peer) {
        pollfd p{fd, POLLOUT, 0};
        c.equal(poll(&p, 1, 5000), 1, "connection established");
        sockaddr_storage st;
        socklen_t sl = sizeof st;
        c.equal(getpeername(fd, reinterpret_cast<sockaddr*>(&st), &sl), 0,
                "getpeername");
        c.check(IpAddress{reinterpret_cast<sockaddr&>(st)} == ip,
                "connected to something else");
        int conn = accept(l.fd, nullptr, nullptr);
        c.check(conn >= 0, "listener saw no connection");
        // bytes go through
        std::string data = c.bytes(c.range(1, 40)), got(64, 0);
        c.equal(write(fd, data.data(), data.size()),
                static_cast<ssize_t>(data.size()), "write");
        ssize_t r = read(conn, &got[0], got.size());
        if (r > 0) got.resize(r);
        c.equal(got, data, "bytes received");
        __real_close(conn);
        c.nontrivial();
      }
    } catch (const std::runtime_error& e) {
      c.check(!expect_peer, "connect failed: ", e.what());
      c.classify("refused at once");
    }
    if (fd >= 0) c.check(fcntl(fd, F_GETFD) == -1, "descriptor left open");
  };
  if (kind <= 1) {
    bool v6 = kind == 1;
    if (!l.open(v6, true)) {
      c.exclude("no loopback");
      return;
    }
    IpAddress ip{reinterpret_cast<sockaddr&>(l.addr)};
    c.note("listener ", ToString(ip));
    int times = c.range(1, 3);
    for (int i = 0; i < times; ++i) connect_to(ip, true);
    c.equal(pbt::count_fds() - before, 1, "descriptors open");
  } else if (kind == 2) {
    if (!l.open(c.boolean(), false)) {
      c.exclude("no loopback");
      return;
    }
    c.note("nobody listening");
    connect_to(IpAddress{reinterpret_cast<sockaddr&>(l.addr)}, false);
    c.nontrivial();
    c.equal(pbt::count_fds() - before, 1, "descriptors open");
  } else if (kind == 3) {
    static const char* hosts[] = {"255.255.255.255", "224.0.0.1", "ff02::1",
                                  "240.0.0.1"};
    const char* h = c.pick(hosts);
    c.note("unreachable ", h);
    connect_to(IpAddress{h, static_cast<uint16_t>(c.range(1, 65535))}, false);
    c.nontrivial();
    c.equal(pbt::count_fds() - before, 0, "descriptors open");
  } else {
    // Connect of a socket object reports what the system call returned
    if (!l.open(false, true)) {
      c.exclude("no loopback");
      return;
    }
    Socket s;
    c.equal(s.Connect(reinterpret_cast<sockaddr&>(l.addr), l.len), 0,
            "blocking connect");
    c.check(s.Connect(reinterpret_cast<sockaddr&>(l.addr), l.len) == -1,
            "second connect of a connected socket succeeded");
  }
}

// ---------------------------------------------------------------------------
// P12
namespace {
struct Descending {
  bool operator()(const std::string& a, const std::string& b) const {
    return a > b;
  }
};
template <class K, class V, class Comp, class GenK, class GenV>
void flat_map_model(pbt::Case& c, GenK gk, GenV gv) {
  FlatMap<K, V, Comp> f;
  std::map<K, V, Comp> m;
  int steps = c.size(80);
  bool replaced = false;
  for (int i = 0; i < steps; ++i) {
    K k = gk();
    if (c.chance(3, 4)) {
      V v = gv();
      c.note("put ", k, "=", v);
      replaced = replaced || m.count(k);
      m[k] = v;
      K k2 = k;
      V v2 = v;
      auto it = f.insert_or_assign(std::move(k2), std::move(v2));
      c.check(it != f.end(), "insertion returned the end");
      c.check(it->first == k && it->second == v,
              "insertion returned another element");
    } else {
      auto it = f.find(k);
      auto jt = m.find(k);
      c.equal(it == f.end(), jt == m.end(), "key absent");
      if (jt != m.end()) {
        c.check(it->first == k && it->second == jt->second, "found value");
      }
    }
    c.equal(f.empty(), m.empty(), "empty");
    c.equal(f.as_vector().size(), m.size(), "size");
  }
  auto it = f.begin();
  for (auto& kv : m) {
    c.check(it != f.end(), "too few elements");
    c.check(it->first == kv.first && it->second == kv.second,
            "iteration differs");
    auto found = f.find(kv.first);
    c.check(found == it, "find of an element that is there");
    ++it;
  }
  c.check(it == f.end(), "too many elements");
  FlatMap<K, V, Comp> copy = f;
  c.check(copy.as_vector() == f.as_vector(), "copy differs");
  if (replaced && m.size() > 2) c.nontrivial();
}
}  // namespace

PROPERTY(flat_map) {
  switch (c.draw(2)) {
    case 0:
      flat_map_model<std::string, std::string, std::less<std::string>>(
          c, [&] { return c.over("abAB\x7f\xff", c.size(4)); },
          [&] { return c.over("xyz", c.size(6)); });
      break;
    case 1: {
      int64_t span = c.range(1, 60);
      flat_map_model<int, int, std::less<int>>(
          c, [&] { return static_cast<int>(c.range(-span, span)); },
          [&] { return static_cast<int>(c.range(0, 1000)); });
      break;
    }
    default:
      flat_map_model<std::string, int, Descending>(
          c, [&] { return c.over("abc", c.size(3)); },
          [&] { return static_cast<int>(c.range(0, 9)); });
  }
}

namespace {
int twice(int x) { return 2 * x; }
int plus_one(int x) { return x + 1; }
struct Counter {
  int calls = 0;
  int bias = 0;
  int operator()(int x) {
    ++calls;
    return x + bias;
  }
};
struct ConstCallable {
  int k;
  int operator()(int x) const { return x * k; }
};
}  // namespace

PROPERTY(function_ref) {
  typedef FunctionRef<int(int)> Ref;
  std::vector<Ref> refs;
  std::vector<int> target;  // -1 null, 0 twice, 1 plus_one, 2+ counters, 10+ const
  std::vector<Counter> counters(4);
  std::vector<ConstCallable> consts{{3}, {-2}};
  for (auto& x : counters) x.bias = c.range(-5, 5);
  std::vector<int> calls(4, 0);
  auto make = [&](int t) -> Ref {
    if (t == -1) return Ref{nullptr};
    if (t == 0) return Ref{twice};
    if (t == 1) {
      int (*p)(int) = plus_one;
      return Ref{p};
    }
    if (t >= 10) {
      return Ref{consts[t - 10]};
    }
    return Ref{counters[t - 2]};
  };
  static const int targets[] = {-1, 0, 1, 2, 3, 4, 5, 10, 11};
  int steps = c.range(1, 40);
  bool copied = false;
  for (int i = 0; i < steps; ++i) {
    size_t n = refs.size();
    switch (n ? c.weighted({2, 2, 4}) : 0) {
      case 0: {
        int t = c.pick(targets);
        c.note("bind ", t);
        refs.push_back(make(t));
        target.push_back(t);
        break;
      }
      case 1: {  // copies refer to the same callable
        size_t a = c.range(0, n - 1);
        c.note("copy ", a);
        Ref r{refs[a]};
        refs.push_back(std::move(r));
        target.push_back(target[a]);
        copied = true;
        break;
      }
      case 2: {
        size_t a = c.range(0, n - 1);
        int t = target[a], x = c.range(-100, 100);
        c.equal(static_cast<bool>(refs[a]), t != -1, "bound");
        if (t == -1) break;
        int want = t == 0 ? 2 * x
                          : t == 1 ? x + 1
                                   : t >= 10 ? x * consts[t - 10].k
                                             : x + counters[t - 2].bias;
        c.equal(refs[a](x), want, "result");
        if (t >= 2 && t < 10) {
          ++calls[t - 2];
          for (int k = 0; k < 4; ++k) {
            c.equal(counters[k].calls, calls[k], "calls of the callable");
          }
        }
        break;
      }
    }
  }
  // references and move-only arguments pass through
  int target_int = 0;
  auto addr = [&](int& r) -> int* { return &r; };
  FunctionRef<int*(int&)> by_ref{addr};
  c.check(by_ref(target_int) == &target_int, "reference argument copied");
  auto take = [](std::unique_ptr<int> p) { return *p; };
  FunctionRef<int(std::unique_ptr<int>)> by_move{take};
  c.equal(by_move(std::unique_ptr<int>{new int{7}}), 7, "moved argument");
  std::string text = c.over("ab", c.size(30));
  auto vis = [&](const std::string& s) { return s.size(); };
  FunctionRef<size_t(const std::string&)> conv{vis};
  c.equal(conv(text), text.size(), "converted argument");
  if (copied && steps > 4) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P25 (first half)
namespace {
std::string lower(std::string s) {
  for (auto& ch : s) ch = static_cast<char>(tolower(static_cast<unsigned char>(ch)));
  return s;
}
}  // namespace

PROPERTY(separate_endpoints) {
  std::vector<std::pair<std::string, uint16_t>> in;
  int n = c.size(30);
  std::vector<std::string> names;
  int k = c.range(1, 6);
  for (int i = 0; i < k; ++i) {
    names.push_back(c.over("abAB.-1", c.range(0, 5)));
  }
  for (int i = 0; i < n; ++i) {
    std::string h = c.pick(names);
    if (c.chance(1, 3)) {
      for (auto& ch : h) {
        if (c.boolean()) {
          ch = static_cast<char>(isupper(ch) ? tolower(ch) : toupper(ch));
        }
      }
    }
    in.emplace_back(h, static_cast<uint16_t>(c.range(0, 65535)));
    c.note(h, ":", in.back().second);
  }
  auto r = SeparateEndpoints(in);
  std::set<std::string> want;
  for (auto& e : in) want.insert(lower(e.first));
  std::set<std::string> got;
  for (auto h : r.first) {
    c.check(h != nullptr, "null host");
    c.check(got.insert(lower(h)).second, "host listed twice: ", h);
  }
  c.check(got == want, "hosts differ");
  c.equal(r.second.size(), in.size(), "number of endpoints");
  for (size_t i = 0; i < in.size(); ++i) {
    int idx = r.second[i].first;
    c.check(idx >= 0 && idx < static_cast<int>(r.first.size()),
            "host index out of range");
    c.equal(lower(r.first[idx]), lower(in[i].first), "host of endpoint");
    c.equal(r.second[i].second, in[i].second, "port of endpoint");
  }
  if (want.size() > 1 && want.size() < in.size()) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P34
namespace {
// An output stream that hands out buffers of generated sizes, so that both the
// direct-buffer and the general path of the serializers are taken.
class ChunkStream : public google::protobuf::io::ZeroCopyOutputStream {
 public:
  ChunkStream(pbt::Case& c) {
    int n = c.range(1, 5);
    for (int i = 0; i < n; ++i) {
      sizes_.push_back(c.boolean() ? c.range(1, 8) : c.range(1, 300));
    }
  }
  bool Next(void** data, int* size) override {
    int n = sizes_[i_++ % sizes_.size()];
    blocks_.emplace_back(new std::string(n, '\xee'));
    used_.push_back(n);
    *data = &(*blocks_.back())[0];
    *size = n;
    return true;
  }
  void BackUp(int count) override { used_.back() -= count; }
  int64_t ByteCount() const override {
    int64_t n = 0;
    for (int u : used_) n += u;
    return n;
  }
  std::string str() const {
    std::string s;
    for (size_t i = 0; i < blocks_.size(); ++i) s.append(*blocks_[i], 0, used_[i]);
    return s;
  }
  size_t num_blocks() const { return blocks_.size(); }

 private:
  std::vector<int> sizes_;
  std::vector<std::unique_ptr<std::string>> blocks_;
  std::vector<int> used_;
  size_t i_ = 0;
};

struct Field {
  uint32_t number;
  int kind;  // 0 varint, 1 fixed64, 2 bytes
  uint64_t value;
  std::string bytes;
};

template <size_t N, class Stream>
void write_field(Stream& s, const Field& f, int variant, size_t& computed,
                 pbt::Case& c) {
  switch (f.kind) {
    case 0:
      if (variant == 0) {
        WriteVarint<N>(s, f.value);
        computed += ComputeVarintSerializationSize<N>(f.value);
      } else if (variant == 1 && f.value <= UINT32_MAX) {
        WriteVarint<N>(s, static_cast<uint32_t>(f.value));
        computed +=
            ComputeVarintSerializationSize<N>(static_cast<uint32_t>(f.value));
      } else {
        WriteBigVarint<N>(s, f.value);
        computed += ComputeVarintSerializationSize<N>(f.value);
      }
      break;
    case 1:
      WriteFixed64<N>(s, &f.value);
      computed += StaticKeySerializationSize<N, WireType::Fixed64>::value + 8;
      break;
    default: {
      if (variant == 0) {
        WriteString<N>(s, opentracing::string_view{f.bytes.data(), f.bytes.size()});
      } else {
        WriteKeyLength<N>(s, f.bytes.size());
        s.WriteRaw(f.bytes.data(), f.bytes.size());
      }
      size_t h = ComputeLengthDelimitedHeaderSerializationSize<N>(f.bytes.size());
      size_t t = ComputeLengthDelimitedSerializationSize<N>(f.bytes.size());
      c.equal(t, h + f.bytes.size(), "length-delimited size");
      computed += t;
    }
  }
}
template <class Stream>
void write_any(Stream& s, const Field& f, int variant, size_t& computed,
               pbt::Case& c) {
  switch (f.number) {
#define F(N)                                        \
  case N:                                           \
    write_field<N>(s, f, variant, computed, c);     \
    break;
    F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(15) F(16) F(17) F(100)
    F(2047) F(2048) F(262143) F(262144) F(33554431) F(33554432) F(536870911)
#undef F
  }
}
const uint32_t field_numbers[] = {1,    2,    3,      4,      5,        6,
                                  7,    8,    9,      15,     16,       17,
                                  100,  2047, 2048,   262143, 262144,   33554431,
                                  33554432, 536870911};

Field gen_field(pbt::Case& c) {
  Field f;
  f.number = c.pick(field_numbers);
  f.kind = c.range(0, 2);
  f.value = 0;
  if (f.kind == 2) {
    size_t n;
    switch (c.draw(3)) {
      case 0: n = c.size(40); break;
      case 1: n = c.range(120, 136); break;
      case 2: n = c.range(0, 2000); break;
      default: n = c.chance(1, 20) ? c.range(16380, 16390) : 0;
    }
    f.bytes = c.bytes(n);
  } else {
    f.value = c.u64();
  }
  return f;
}
void check_fields(pbt::Case& c, const std::string& s,
                  const std::vector<Field>& want, const std::string& where) {
  google::protobuf::UnknownFieldSet u;
  c.check(u.ParseFromString(s), where, ": does not parse");
  c.equal(static_cast<size_t>(u.field_count()), want.size(),
          where + ": fields");
  for (size_t i = 0; i < want.size(); ++i) {
    auto& f = u.field(i);
    c.equal(static_cast<uint32_t>(f.number()), want[i].number,
            where + ": field number");
    switch (want[i].kind) {
      case 0:
        c.check(f.type() == google::protobuf::UnknownField::TYPE_VARINT, where,
                ": wire type");
        c.equal(f.varint(), want[i].value, where + ": varint");
        break;
      case 1:
        c.check(f.type() == google::protobuf::UnknownField::TYPE_FIXED64,
                where, ": wire type");
        c.equal(f.fixed64(), want[i].value, where + ": fixed64");
        break;
      default:
        c.check(
            f.type() == google::protobuf::UnknownField::TYPE_LENGTH_DELIMITED,
            where, ": wire type");
        c.equal(f.length_delimited(), want[i].bytes, where + ": bytes");
    }
  }
}
}  // namespace

PROPERTY(wire_fields) {
  std::vector<Field> fields;
  std::vector<int> variant;
  int n = c.range(1, 10);
  for (int i = 0; i < n; ++i) {
    fields.push_back(gen_field(c));
    variant.push_back(c.range(0, 2));
    auto& f = fields.back();
    c.note(f.number, f.kind == 2 ? ":bytes " : f.kind ? ":fixed " : ":varint ",
           f.kind == 2 ? f.bytes.size() : f.value);
  }
  ChunkStream chunks{c};
  size_t size1 = 0, size2 = 0;
  {
    CodedOutputStream co{&chunks};
    for (int i = 0; i < n; ++i) {
      write_any(co, fields[i], variant[i] == 2 && fields[i].kind == 2
                                   ? 0 : variant[i], size1, c);
    }
    c.check(!co.HadError(), "stream error");
  }
  std::string s = chunks.str();
  c.equal(size1, s.size(), "computed size");
  check_fields(c, s, fields, "CodedOutputStream");
  // The direct stream writes the same bytes, and exactly the computed number.
  std::vector<google::protobuf::uint8> buf(size1 + 16, 0xcd);
  {
    DirectCodedOutputStream d{buf.data()};
    for (int i = 0; i < n; ++i) {
      write_any(d, fields[i], variant[i] == 2 && fields[i].kind == 2
                                  ? 0 : variant[i], size2, c);
    }
    c.equal(static_cast<size_t>(d.data() - buf.data()), size1,
            "bytes written by the direct stream");
  }
  c.equal(std::string(buf.begin(), buf.begin() + size1), s, "direct stream");
  for (size_t i = size1; i < buf.size(); ++i) {
    c.check(buf[i] == 0xcd, "direct stream wrote past its end");
  }
  if (n > 1 && chunks.num_blocks() > 1) c.nontrivial();
}

PROPERTY(big_varint) {
  uint64_t x;
  switch (c.draw(3)) {
    case 0: x = (1ull << 56) + c.range(-3, 3); break;
    case 1: x = (1ull << 63) + c.range(-3, 3); break;
    case 2: x = c.draw(~0ull); break;
    default: x = c.u64();
  }
  c.note(x);
  google::protobuf::uint8 a[16], b[16];
  memset(a, 0xcd, 16);
  memset(b, 0xcd, 16);
  auto end = CodedOutputStream::WriteVarint64ToArray(x, a);
  DirectCodedOutputStream d{b};
  if (c.boolean()) {
    d.WriteBigVarint64(x);
  } else {
    WriteBigVarint64(d, x);
  }
  c.equal(d.data() - b, end - a, "length");
  c.check(memcmp(a, b, 16) == 0, "bytes differ");
  DirectCodedOutputStream e{b};
  memset(b, 0xcd, 16);
  e.WriteVarint64(x);
  c.check(memcmp(a, b, 16) == 0, "WriteVarint64 differs");
  if (x >> 56) c.nontrivial();
}

PROPERTY(embedded_message) {
  collector::Span span;
  span.set_operation_name(c.bytes(c.size(300)));
  int tags = c.size(12);
  for (int i = 0; i < tags; ++i) {
    auto t = span.add_tags();
    t->set_key(c.over("kl", c.size(20)));
    t->set_int_value(c.i64());
  }
  if (c.chance(1, 10)) {
    span.mutable_span_context()->set_span_id(c.u64());
    (*span.mutable_span_context()->mutable_baggage())["k"] =
        c.bytes(c.boolean() ? c.range(1, 40000) : c.range(65400, 140000));
  }
  if (c.chance(1, 8)) span.Clear();
  std::string op = span.operation_name();
  for (auto& ch : op) ch &= 0x7f;  // valid UTF-8
  span.set_operation_name(op);
  for (auto& kv : *span.mutable_span_context()->mutable_baggage()) {
    for (auto& ch : kv.second) ch &= 0x7f;
  }
  uint32_t field = c.boolean() ? c.range(1, 40) : c.range(1, 536870911);
  size_t size = span.ByteSizeLong();
  c.note("field ", field, " size ", size);
  ChunkStream chunks{c};
  bool with_size = c.boolean();
  int copies = c.range(1, 3);
  {
    CodedOutputStream co{&chunks};
    for (int i = 0; i < copies; ++i) {
      if (with_size) {
        WriteEmbeddedMessage(co, field, size, span);
      } else {
        WriteEmbeddedMessage(co, field, span);
      }
    }
  }
  std::string s = chunks.str();
  c.equal(ComputeEmbeddedMessageSerializationSize(field, span) * copies,
          s.size(), "computed size");
  c.equal(ComputeEmbeddedMessageSerializationSize(field, size) * copies,
          s.size(), "computed size from the message size");
  google::protobuf::UnknownFieldSet u;
  c.check(u.ParseFromString(s), "does not parse");
  c.equal(u.field_count(), copies, "messages");
  for (int i = 0; i < copies; ++i) {
    c.equal(static_cast<uint32_t>(u.field(i).number()), field, "field number");
    c.check(u.field(i).type() ==
                google::protobuf::UnknownField::TYPE_LENGTH_DELIMITED,
            "wire type");
    collector::Span back;
    c.check(back.ParseFromString(u.field(i).length_delimited()),
            "message does not parse");
    c.check(google::protobuf::util::MessageDifferencer::Equals(back, span),
            "message differs");
  }
  if (size > 127 && field > 15) c.nontrivial();
}

PROPERTY(spans_header) {
  uint32_t body = static_cast<uint32_t>(c.u64());
  if (c.boolean()) body = c.range(0, 40000);
  size_t size = ReportRequestSpansMaxHeaderSize + c.size(20);
  c.note("body ", body, " buffer ", size);
  std::unique_ptr<char[]> buf{new char[size]};  // exact, so overruns are seen
  char fill = static_cast<char>(c.range(1, 255));
  memset(buf.get(), fill, size);
  size_t n = WriteReportRequestSpansHeader(buf.get(), size, body);
  c.check(n > 0 && n <= ReportRequestSpansMaxHeaderSize, "header size ", n);
  for (size_t i = 0; i + n < size; ++i) {
    c.check(buf[i] == fill, "wrote before the header");
  }
  CodedInputStream in{reinterpret_cast<google::protobuf::uint8*>(buf.get()) +
                          (size - n),
                      static_cast<int>(n)};
  uint32_t tag = in.ReadTag(), len = 0;
  c.equal(tag >> 3,
          static_cast<uint32_t>(collector::ReportRequest::kSpansFieldNumber),
          "field");
  c.equal(tag & 7, 2u, "wire type");
  c.check(in.ReadVarint32(&len), "no length");
  c.equal(len, body, "length");
  c.equal(in.CurrentPosition(), static_cast<int>(n), "header length");
  if (body > 127) c.nontrivial();
}
