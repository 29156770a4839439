// P07 the stream of finished spans; P35 the streaming HTTP sessions fed by it.
#include "pbt.hpp"
#include <deque>
#include <memory>
#include <google/protobuf/io/coded_stream.h>
#include "common/chained_stream.h"
#include "common/circular_buffer.h"
#include "common/fragment_array_input_stream.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/metrics_observer.h"
#include "recorder/metrics_tracker.h"
#include "recorder/stream_recorder/span_stream.h"
#ifndef NO_CONNECTION
#include "common/chunked_http_framing.h"
#include "common/report_request_framing.h"
#include "recorder/stream_recorder/connection_stream.h"
#include "recorder/stream_recorder/host_header.h"
#endif
using namespace lightstep;

namespace {
struct Observer : MetricsObserver {
  long sent = 0, dropped = 0, flushes = 0;
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
  void OnFlush() noexcept override { ++flushes; }
};
std::string content(const FragmentInputStream& s) {
  std::string r;
  int n = 0;
  s.ForEachFragment([&](void* data, int size) {
    r.append(static_cast<char*>(data), size);
    ++n;
    return true;
  });
  if (n != s.num_fragments()) throw pbt::Failure{"num_fragments disagrees"};
  return r;
}
std::unique_ptr<ChainedStream> chained(const std::string& s) {
  std::unique_ptr<ChainedStream> r{new ChainedStream};
  {
    google::protobuf::io::CodedOutputStream cs{r.get()};
    cs.WriteString(s);
  }
  r->CloseOutput();
  return r;
}

//------------------------------------------------------------------------ P07
PROPERTY(span_stream, p.check_memory = true;) {
  size_t cap = c.range(1, 12);
  CircularBuffer<ChainedStream> buffer{cap};
  Observer obs;
  MetricsTracker metrics{obs};
  SpanStream stream{buffer, metrics};
  std::deque<std::string> m;  // spans in the buffer
  std::string allotted;       // bytes the stream shows
  size_t num_allotted = 0;
  bool have_remnant = false;
  std::string remnant;
  long sent = 0;
  bool split = false, boundary = false;
  c.note("capacity ", cap);
  int steps = c.range(1, 40);
  int serial = 0;
  for (int i = 0; i < steps; ++i) {
    switch (c.weighted({5, 4, 6, 2})) {
      case 0: {
        size_t n = c.pick({1, 5, 20, 255, 256, 257, 511, 512, 513, 900});
        n = c.chance(1, 25) ? c.range(1, 60000) : c.range(1, n);
        std::string s(n, 'a' + serial++ % 26);
        auto st = chained(s);
        if (c.chance(1, 4) && n > 3) {  // unused space before the header
          int k = c.range(1, std::min<int>(n - 1, 255));
          st->Seek(0, k);
          s.erase(0, k);
        }
        bool ok = buffer.Add(st);
        c.equal(ok, m.size() < cap, "Add");
        c.note("add ", s.size());
        if (ok) m.push_back(s);
        break;
      }
      case 1:
        c.note("allot");
        stream.Allot();
        allotted.clear();
        num_allotted = m.size();
        for (auto& s : m) allotted += s;
        break;
      case 2: {  // consume from the stream, maybe after another stream
        size_t n;
        if (num_allotted > 0 && c.chance(1, 3)) {  // at a span boundary
          size_t k = c.range(0, num_allotted);
          n = 0;
          for (size_t j = 0; j < k; ++j) n += m[j].size();
        } else {
          n = c.range(0, allotted.size());
        }
        std::string head = c.bytes(c.range(0, 5));
        FragmentArrayInputStream before{
            {static_cast<void*>(&head[0]), static_cast<int>(head.size())}};
        c.note("consume ", n, " of ", allotted.size());
        bool done = Consume({&before, &stream},
                            static_cast<int>(n + head.size()));
        c.equal(done, n == allotted.size(), "Consume result");
        size_t left = n;
        bool all = n == allotted.size();
        size_t spans = 0;
        have_remnant = false;
        remnant.clear();
        while (spans < num_allotted && left >= m.front().size()) {
          left -= m.front().size();
          m.pop_front();
          ++spans;
          ++sent;
        }
        if (left > 0) {
          remnant = m.front().substr(left);
          have_remnant = true;
          m.pop_front();
          split = true;
        } else if (!all && n > 0) {
          boundary = true;
        }
        allotted.clear();
        num_allotted = 0;
        break;
      }
      default: {
        c.note("take remnant");
        auto r = stream.ConsumeRemnant();
        c.equal(r != nullptr, have_remnant, "partially consumed span present");
        if (r) c.equal(content(*r), remnant, "partially consumed span");
        have_remnant = false;
        c.check(stream.ConsumeRemnant() == nullptr, "remnant handed out twice");
      }
    }
    c.equal(content(stream), allotted, "bytes shown");
    c.equal(stream.empty(), stream.num_fragments() == 0, "empty");
    c.equal(buffer.size(), m.size(), "spans left in the buffer");
    c.equal(obs.sent, sent, "spans counted as sent");
    c.equal(obs.dropped, 0l, "spans counted as dropped");
    std::string all;
    buffer.Peek().ForEach([&](const AtomicUniquePtr<ChainedStream>& p) {
      all += content(*p);
      return true;
    });
    std::string want;
    for (auto& s : m) want += s;
    c.check(all == want, "buffered spans changed");
  }
  if (split) c.nontrivial();
  c.classify("split span", split);
  c.classify("stopped at a boundary", boundary);
}

#ifndef NO_CONNECTION
//------------------------------------------------------------------------ P35
struct WriteError : std::runtime_error {
  WriteError() : std::runtime_error("injected") {}
};
// One HTTP request's bytes, decoded.
struct Decoded {
  bool header_complete = false;   // through the first chunk
  bool terminated = false;
  collector::ReportRequest head;
  std::vector<std::string> spans;  // complete chunks after the first
  std::string partial;             // bytes of an incomplete chunk
  std::string error;
};
Decoded decode(const std::string& s, const std::string& http) {
  Decoded d;
  if (s.size() < http.size()) {
    if (http.compare(0, s.size(), s) != 0) d.error = "wrong request header";
    return d;
  }
  if (s.compare(0, http.size(), http) != 0) {
    d.error = "wrong request header";
    return d;
  }
  size_t pos = http.size();
  bool first = true;
  while (pos < s.size()) {
    size_t eol = s.find("\r\n", pos);
    if (eol == std::string::npos) break;
    std::string hex = s.substr(pos, eol - pos);
    if (hex.empty() || hex.size() > 16 ||
        hex.find_first_not_of("0123456789ABCDEFabcdef") != std::string::npos) {
      d.error = "bad chunk size " + pbt::Case::quote(hex);
      return d;
    }
    size_t n = strtoull(hex.c_str(), nullptr, 16);
    if (n == 0) {
      if (s.size() < eol + 4) break;
      if (s.compare(eol, std::string::npos, "\r\n\r\n") != 0) {
        d.error = "bytes after the last chunk";
        return d;
      }
      d.terminated = true;
      pos = s.size();
      break;
    }
    if (s.size() < eol + 2 + n + 2) break;
    std::string body = s.substr(eol + 2, n);
    if (s.compare(eol + 2 + n, 2, "\r\n") != 0) {
      d.error = "chunk not terminated";
      return d;
    }
    if (first) {
      if (!d.head.ParseFromString(body)) {
        d.error = "first chunk is not a report request";
        return d;
      }
      d.header_complete = true;
      first = false;
    } else {
      collector::ReportRequest r;
      if (!r.ParseFromString(body) || r.spans_size() != 1) {
        d.error = "chunk is not one span";
        return d;
      }
      d.spans.push_back(r.spans(0).operation_name());
    }
    pos = eol + 2 + n + 2;
  }
  d.partial = s.substr(pos);
  return d;
}
std::string frame(const collector::Span& span) {
  auto body = span.SerializeAsString();
  std::array<char, ReportRequestSpansMaxHeaderSize> h;
  auto n = WriteReportRequestSpansHeader(h.data(), h.size(),
                                         static_cast<uint32_t>(body.size()));
  std::string inner(h.data() + h.size() - n, n);
  inner += body;
  std::array<char, ChunkedHttpMaxHeaderSize> g;
  auto k = WriteHttpChunkHeader(g.data(), g.size(),
                                static_cast<uint32_t>(inner.size()));
  return std::string(g.data() + g.size() - k, k) + inner + "\r\n";
}
struct Session {
  std::unique_ptr<ConnectionStream> stream;
  std::string out;        // accepted bytes of the current request
  bool shutdown = false;
  bool broken = false;    // the writer failed; only Reset is allowed
  std::unique_ptr<HostHeader> header;
  Fragment host_fragment;
  std::string host;       // the header line of the current request
};
// The satellite of the next request; the line's length never changes.
void choose_host(pbt::Case& c, Session& s,
                 const LightStepTracerOptions& options) {
  auto& e = options.satellite_endpoints;
  auto& name = e[c.draw(e.size() - 1)].first;
  s.header->set_host(name.c_str());
  auto f = s.header->fragment();
  c.check(f.first == s.host_fragment.first && f.second == s.host_fragment.second,
          "the fragment of the host header changed");
  s.host.assign(static_cast<char*>(f.first), f.second);
  auto value = s.host.substr(std::min<size_t>(s.host.size(), 5));
  c.check(s.host.compare(0, 5, "Host:") == 0 && value.size() >= 2 &&
              value.compare(value.size() - 2, 2, "\r\n") == 0,
          "host header ", pbt::Case::quote(s.host));
  value.erase(value.size() - 2);
  value.erase(0, value.find_first_not_of(" \t"));
  value.erase(value.find_last_not_of(" \t") + 1);
  c.equal(value, name, "host in the header");
}
PROPERTY(connection_stream, p.check_memory = true;) {
  size_t cap = c.range(1, 10);
  CircularBuffer<ChainedStream> buffer{cap};
  Observer obs;
  MetricsTracker metrics{obs};
  SpanStream spans{buffer, metrics};
  collector::ReportRequest common;
  common.mutable_reporter()->set_reporter_id(c.u64());
  common.mutable_auth()->set_access_token(c.over("abc", c.size(300)));
  std::string common_bytes = common.SerializeAsString();
  Fragment common_fragment{&common_bytes[0],
                           static_cast<int>(common_bytes.size())};
  int n = c.range(1, 3);
  LightStepTracerOptions tracer_options;
  static const std::vector<std::string> names = {
      "a", "b", "ba", "aba", "b.a", "satellite.example.com", "example.com",
      "10.0.0.1", "::1", "%s"};
  tracer_options.satellite_endpoints.clear();
  for (int i = c.range(1, 3); i > 0; --i)
    tracer_options.satellite_endpoints.emplace_back(c.pick(names), 80);
  std::vector<Session> v(n);
  for (int i = 0; i < n; ++i) {
    v[i].header.reset(new HostHeader{tracer_options});
  }
  for (auto& s : v) {
    auto f = s.header->fragment();
    s.host_fragment = {f.first, f.second};
    choose_host(c, s, tracer_options);
    s.stream.reset(
        new ConnectionStream{s.host_fragment, common_fragment, spans});
  }
  c.note("capacity ", cap, ", ", n, " sessions");
  auto http = [&](Session& s) {
    return "POST /api/v2/reports HTTP/1.1\r\n"
           "Connection:close\r\n"
           "Content-Type:application/octet-stream\r\n"
           "Transfer-Encoding:chunked\r\n" +
           s.host + "\r\n";
  };
  for (auto& s : v) {
    c.equal(s.stream->first_chunk_position(),
            static_cast<int>(http(s).size()), "first_chunk_position");
  }
  std::map<std::string, int> state;  // 0 buffered/in flight, 1 complete
  std::vector<std::string> order;    // as added
  long added = 0, refused = 0, reported_lost = 0, splits = 0, resets = 0,
       throws = 0;
  std::map<std::string, size_t> seen_in;  // span -> number of full arrivals
  long total_drop_reports = 0;
  auto finish_request = [&](Session& s) {
    auto d = decode(s.out, http(s));
    c.check(d.error.empty(), d.error, " in ", pbt::Case::quote(s.out, 400));
    if (d.header_complete) {
      c.equal(d.head.reporter().reporter_id(), common.reporter().reporter_id(),
              "reporter id");
      c.equal(d.head.auth().access_token(), common.auth().access_token(),
              "access token");
      c.equal(d.head.internal_metrics().counts_size(), 1, "metrics");
      c.equal(d.head.internal_metrics().counts(0).name(),
              std::string("spans.dropped"), "metric name");
      total_drop_reports += d.head.internal_metrics().counts(0).int_value();
    }
    size_t last = 0;
    for (auto& name : d.spans) {
      ++seen_in[name];
      size_t at = std::stoul(name);
      c.check(at >= last, "spans out of order in one request");
      last = at;
    }
    return d;
  };
  auto account = [&](bool at_end) {
    // every span is in exactly one place
    long complete = 0, in_flight = 0, drop_reports = total_drop_reports,
         pending = metrics.num_dropped_spans();
    std::map<std::string, size_t> seen = seen_in;
    for (auto& s : v) {
      auto d = decode(s.out, http(s));
      c.check(d.error.empty(), d.error, " in ", pbt::Case::quote(s.out, 400));
      for (auto& x : d.spans) ++seen[x];
      if (d.header_complete) {
        drop_reports += d.head.internal_metrics().counts(0).int_value();
      }
      if (!s.broken && d.header_complete && !d.partial.empty() &&
          !(d.partial[0] == '0' && d.partial.size() < 6 && s.shutdown)) {
        ++in_flight;
      }
    }
    for (auto& x : seen) {
      c.check(x.second == 1, "span ", x.first, " was delivered ", x.second,
              " times");
      ++complete;
    }
    (void)drop_reports;
    (void)pending;
    if (at_end) {
      c.equal(static_cast<long>(buffer.size()) + complete + obs.dropped -
                  refused,
              added, "spans buffered + delivered + counted as dropped");
      c.equal(obs.sent, complete, "spans counted as sent");
      c.equal(drop_reports + pending, obs.dropped,
              "dropped spans reported or still to be reported");
    } else {
      c.check(obs.sent <= complete, "spans counted as sent before they were");
    }
  };
  int steps = c.range(1, 40);
  int serial = 0;
  for (int i = 0; i < steps; ++i) {
    int k = c.draw(n - 1);
    Session& s = v[k];
    switch (c.weighted({6, 8, 1, 2})) {
      case 0: {
        collector::Span span;
        char name[16];
        snprintf(name, sizeof name, "%08d", serial++);
        span.set_operation_name(name);
        size_t pad = c.pick({0, 3, 30, 250, 600});
        if (pad) span.add_tags()->set_string_value(std::string(pad, 'x'));
        std::string f = frame(span);
        auto st = chained(f);
        if (buffer.Add(st)) {
          ++added;
          c.note("add ", name, " (", f.size(), ")");
        } else {
          metrics.OnSpansDropped(1);
          ++refused;
          c.note("refused ", name);
        }
        break;
      }
      case 1: {
        if (s.broken) continue;
        bool fail = c.chance(1, 6);
        size_t chosen = 0;
        bool called = false, complete = false;
        auto writer =
            [&](std::initializer_list<FragmentInputStream*> list) -> bool {
          called = true;
          std::string all;
          for (auto f : list) all += content(*f);
          switch (c.draw(3)) {
            case 0: chosen = all.size(); break;
            case 1: chosen = 0; break;
            default: chosen = c.range(0, all.size());
          }
          s.out += all.substr(0, chosen);
          if (chosen < all.size() && chosen > 0) ++splits;
          bool done = Consume(list, static_cast<int>(chosen));
          complete = done;
          if (fail) {
            ++throws;
            throw WriteError{};
          }
          return done;
        };
        bool threw = false, r = false;
        try {
          r = s.stream->Flush(writer);
        } catch (const WriteError&) {
          threw = true;
          s.broken = true;
        }
        c.note("flush ", k, ": ", chosen, fail ? " then error" : "");
        c.check(called, "nothing offered to the writer");
        c.equal(threw, fail, "exception");
        if (!threw) c.equal(r, complete, "result of Flush");
        auto d = decode(s.out, http(s));
        c.check(d.error.empty(), d.error, " in ", pbt::Case::quote(s.out, 400));
        if (!threw) {
          c.equal(s.stream->completed(), d.terminated, "completed");
        }
        if (complete && !s.shutdown && !threw) {
          c.check(buffer.empty(), "spans left after a complete flush");
          c.check(d.partial.empty(), "partial chunk after a complete flush");
        }
        break;
      }
      case 2:
        if (s.broken) continue;
        c.note("shutdown ", k);
        s.stream->Shutdown();
        s.shutdown = true;
        c.check(s.stream->shutting_down(), "not shutting down");
        break;
      default: {
        c.note("reset ", k);
        ++resets;
        auto d = finish_request(s);
        (void)d;
        s.stream->Reset();
        if (c.boolean()) choose_host(c, s, tracer_options);
        s.out.clear();
        s.shutdown = s.broken = false;
        c.check(!s.stream->shutting_down(), "shutting down after reset");
        c.check(!s.stream->completed(), "completed after reset");
      }
    }
    account(false);
  }
  // End every request so that nothing is in flight, then balance the books.
  for (auto& s : v) {
    finish_request(s);
    s.stream->Reset();
    s.out.clear();
    s.broken = false;
  }
  // Undelivered dropped counts were taken by the new requests: let each write.
  for (auto& s : v) {
    s.stream->Shutdown();
    s.stream->Flush([&](std::initializer_list<FragmentInputStream*> list) {
      std::string all;
      for (auto f : list) all += content(*f);
      s.out += all;
      return Consume(list, static_cast<int>(all.size()));
    });
    auto d = decode(s.out, http(s));
    c.check(d.error.empty() && d.terminated, "incomplete final request ",
            d.error);
    c.check(d.spans.empty(), "span sent by a request that was shutting down");
    c.check(s.stream->completed(), "not completed");
  }
  account(true);
  if (splits > 0 && resets > 0 && added > 1) c.nontrivial();
  c.classify("writer failed", throws > 0);
  c.classify("split", splits > 0);
  c.classify("several sessions", n > 1);
}
#endif
}  // namespace
