// The stream recorder in virtual time (P22) and the assignment of satellite
// endpoints (P25), on a simulated event loop and simulated sockets.
#ifdef SIM_OOM
#include "oom.hpp"
#endif
#include <opentracing/string_view.h>
#include <google/protobuf/io/coded_stream.h>
#include "http_session.hpp"
#include "pbt.hpp"
#include "simnet.hpp"
#include "common/random.h"
#include "network/dns_resolver.h"
#include "recorder/stream_recorder/satellite_endpoint_manager.h"
#ifndef ENDPOINTS_ONLY
#include "recorder/stream_recorder/stream_recorder.h"
#endif

using namespace lightstep;
using simnet::ms;
using simnet::ns_t;
using simnet::world;
typedef std::pair<std::string, uint16_t> Endpoint;

namespace {
std::chrono::microseconds micro(ns_t n) {
  return std::chrono::microseconds{n / 1000};
}
struct Words {
  uint64_t s;
  template <class It>
  void generate(It first, It last) {
    for (; first != last; ++first)
      *first = static_cast<uint32_t>(s = pbt::mix(s + 1));
  }
};
std::string lower(std::string s) {
  for (auto& ch : s) ch = static_cast<char>(tolower(ch));
  return s;
}

// --- a resolver that answers from a script --------------------------------
struct Answer {
  ns_t delay;  // <0: before Resolve returns
  bool error = false;
  std::vector<std::string> addresses;
};
struct Lookup {  // one (host, family)
  bool outstanding = false;
  ns_t answered_at = -1;
  bool last_ok = false;
  bool known = false;   // some addresses were taken in
  bool unsure = false;  // an allocation failed while it was taken in
  std::vector<std::string> current;  // what the recorder should be using
  int answers = 0;
};
struct Dns {
  std::map<std::pair<std::string, int>, Lookup> lookups;  // lower-case names
  std::function<Answer(const std::string&, int, int)> script;
  ns_t retry = 0, refresh_min = 0, refresh_max = 0;
  int changes = 0;  // of the set of addresses
  std::string error;
  // around a callback, and how many allocations failed in it
  std::function<void()> before_callback;
  std::function<uint64_t()> after_callback;
  void fail(const std::string& e) {
    if (error.empty()) error = e;
  }
  bool any() const {
    for (auto& l : lookups)
      if (!l.second.current.empty()) return true;
    return false;
  }
  bool any_known() const {
    for (auto& l : lookups)
      if (l.second.known) return true;
    return false;
  }
};
Dns* dns = nullptr;
struct Resolution : DnsResolution {
  std::vector<IpAddress> v;
  bool ForeachIpAddress(
      const FunctionRef<bool(const IpAddress&)>& f) const override {
    for (auto& a : v)
      if (!f(a)) return false;
    return true;
  }
};
struct FakeResolver : DnsResolver {
  std::shared_ptr<bool> alive = std::make_shared<bool>(true);
  ~FakeResolver() override { *alive = false; }
  void Resolve(const char* name, int family,
               DnsResolutionCallback& callback) noexcept override {
    SIM_PAUSE;
    std::string host = lower(name);
    Lookup& l = dns->lookups[{host, family}];
    if (l.outstanding) dns->fail("resolution of " + host + " started twice");
    if (l.answered_at >= 0) {
      ns_t d = simnet::now() - l.answered_at;
      bool retried = d >= dns->retry && d <= dns->retry + ms;
      if (l.unsure && retried) {
      } else {
        if (!l.last_ok && d < dns->retry)
          dns->fail("failed resolution retried too early");
        if (!l.last_ok && d > dns->retry + ms)
          dns->fail("failed resolution retried too late");
        if (l.last_ok && d < dns->refresh_min)
          dns->fail("resolution refreshed too early");
        if (l.last_ok && d > dns->refresh_max + ms)
          dns->fail("resolution refreshed too late");
      }
    }
    l.outstanding = true;
    Answer a = dns->script(host, family, l.answers++);
    auto key = std::make_pair(host, family);
    auto live = alive;
    auto answer = [key, a, live, &callback] {
      if (!*live) return;
      Lookup& l = dns->lookups[key];
      l.outstanding = false;
      l.answered_at = simnet::now();
      l.last_ok = !a.error && !a.addresses.empty();
      if (l.last_ok) {
        l.current = a.addresses;
        ++dns->changes;
      }
      Resolution r;
      for (auto& s : a.addresses) r.v.emplace_back(s.c_str());
      if (a.error) r.v.clear();
      l.unsure = false;
      if (dns->before_callback) dns->before_callback();
      callback.OnDnsResolution(r, a.error ? "it failed" : "");
      bool failed = dns->after_callback && dns->after_callback();
      if (!*live) return;
      Lookup& m = dns->lookups[key];
      m.unsure = failed;
      m.known |= m.last_ok && !failed;
    };
    if (a.delay < 0)
      answer();
    else
      world->at(simnet::now() + a.delay, answer);
  }
};
std::string text(const sockaddr* a, uint16_t* port) {
  char b[64] = "?";
  if (a->sa_family == AF_INET) {
    auto p = reinterpret_cast<const sockaddr_in*>(a);
    inet_ntop(AF_INET, &p->sin_addr, b, sizeof b);
    *port = ntohs(p->sin_port);
  } else {
    auto p = reinterpret_cast<const sockaddr_in6*>(a);
    inet_ntop(AF_INET6, &p->sin6_addr, b, sizeof b);
    *port = ntohs(p->sin6_port);
  }
  return b;
}
std::vector<std::string> gen_addresses(pbt::Case& c, int family, int n) {
  std::vector<std::string> v;
  for (int i = 0; i < n; ++i) {
    std::string k = std::to_string(c.range(1, 250));
    v.push_back(family == AF_INET ? "10.0.0." + k : "fd00::" + k);
  }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[c.draw(i - 1)]);
  return v;
}
// The addresses in use for a host, or none.
const std::vector<std::string>* in_use(const std::string& host, int* family) {
  auto& four = dns->lookups[{lower(host), AF_INET}].current;
  auto& six = dns->lookups[{lower(host), AF_INET6}].current;
  *family = four.empty() ? AF_INET6 : AF_INET;
  return four.empty() ? (six.empty() ? nullptr : &six) : &four;
}
}  // namespace

namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&,
                                             const DnsResolverOptions&) {
  return std::unique_ptr<DnsResolver>{new FakeResolver};
}
}  // namespace lightstep

namespace {
struct UseWorld {
  simnet::World w;
  Dns d;
  vclock::Use clock{0};
  UseWorld() {
    world = &w;
    dns = &d;
  }
  ~UseWorld() {
    world = nullptr;
    dns = nullptr;
  }
};
std::vector<Endpoint> gen_endpoints(pbt::Case& c) {
  static const std::vector<std::string> names = {
      "a", "satellite", "b.example", "A", "Satellite", "10.0.0.1",
      // one ends with the other
      "example", "xa"};
  std::vector<Endpoint> v;
  int n = c.range(1, 5);
  for (int i = 0; i < n; ++i)
    v.emplace_back(c.pick(names),
                   static_cast<uint16_t>(c.pick({80, 8080, 443, 65535, 1})));
  return v;
}
void gen_script(pbt::Case& c, ns_t max_delay, const bool* healthy) {
  dns->script = [&c, max_delay, healthy](const std::string&, int family,
                                         int) {
    Answer a;
    a.delay = c.chance(1, 4) ? -1 : c.range(0, max_delay);
    if (*healthy) {
      a.addresses = gen_addresses(c, family, c.range(1, 3));
      return a;
    }
    switch (c.weighted({3, 1, 1})) {
      case 0: a.addresses = gen_addresses(c, family, c.range(1, 4)); break;
      case 1: a.error = true; break;
      default: break;  // no addresses
    }
    return a;
  };
}
void gen_dns_options(pbt::Case& c, StreamRecorderOptions& o) {
  dns->retry = c.range(1, 200) * ms;
  dns->refresh_min = c.range(1, 300) * ms;
  dns->refresh_max = dns->refresh_min + c.pick({0, 1, 100}) * ms;
  o.dns_failure_retry_period = micro(dns->retry);
  o.min_dns_resolution_refresh_period = micro(dns->refresh_min);
  o.max_dns_resolution_refresh_period = micro(dns->refresh_max);
}
}  // namespace

// ---------------------------------------------------------------------------
// P25
PROPERTY(satellite_endpoints, p.check_memory = true; p.hang_seconds = 8;) {
  UseWorld u;
  Words seed{c.draw(~0ull)};
  GetRandomNumberGenerator().seed(seed);
  u.w.shuffle = [&c](int n) { return static_cast<int>(c.draw(n - 1)); };
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  StreamRecorderOptions ro;
  gen_dns_options(c, ro);
  LightStepTracerOptions to;
  to.satellite_endpoints = gen_endpoints(c);
  if (c.chance(1, 100)) to.satellite_endpoints.clear();
  for (auto& e : to.satellite_endpoints) c.note(e.first, ":", e.second);
  bool healthy = false;
  gen_script(c, c.pick({1, 50, 400}) * ms, &healthy);
  int ready = 0, ready_early = 0;
  std::string error;
  EventBase base;
  std::unique_ptr<SatelliteEndpointManager> m;
  try {
    m.reset(new SatelliteEndpointManager{logger, base, to, ro, [&] {
                                           ++ready;
                                           if (!u.d.any()) ++ready_early;
                                           // the recorder connects at once
                                           for (int k = 0; k < 3; ++k)
                                             m->RequestEndpoint();
                                         }});
  } catch (const std::exception&) {
    c.check(to.satellite_endpoints.empty(), "endpoints were rejected");
    return;
  }
  c.check(!to.satellite_endpoints.empty(), "no endpoints were accepted");
  c.check(u.d.lookups.empty(), "resolution began before Start");
  m->Start();
  std::set<std::string> hosts;
  for (auto& e : to.satellite_endpoints) hosts.insert(lower(e.first));
  auto check_now = [&] {
    c.check(u.w.error.empty(), u.w.error);
    c.check(u.d.error.empty(), u.d.error);
    c.check(ready_early == 0, "announced as ready before an address was known");
    c.equal(ready, u.d.any() ? 1 : 0, "announcements");
    c.equal(u.d.lookups.size(), hosts.size() * 2, "lookups");
    for (auto& k : u.d.lookups) {
      c.check(hosts.count(k.first.first), "unknown host ", k.first.first);
      auto& l = k.second;
      if (l.outstanding) continue;
      c.check(simnet::now() <=
                  l.answered_at + (l.last_ok ? u.d.refresh_max : u.d.retry) + ms,
              "no resolution of ", k.first.first, " is scheduled");
    }
  };
  int requests = 0, rotations = 0, steps = c.range(1, 25);
  auto request = [&](std::map<int, int>* by_endpoint,
                     std::map<std::string, int>* by_address) {
    auto r = m->RequestEndpoint();
    ++requests;
    uint16_t port;
    std::string a = text(&r.first.addr(), &port);
    c.check(r.second != nullptr, "no host name");
    std::string host = lower(r.second);
    bool found = false;
    std::vector<int> which;
    for (size_t i = 0; i < to.satellite_endpoints.size(); ++i) {
      auto& e = to.satellite_endpoints[i];
      if (lower(e.first) == host && e.second == port)
        which.push_back(static_cast<int>(i));
    }
    c.check(!which.empty(), "assigned ", host, ":", port,
            ", which is not an endpoint");
    int family;
    auto v = in_use(host, &family);
    c.check(v != nullptr, "assigned ", host, ", which is not resolved");
    for (auto& x : *v) found |= x == a;
    c.check(found, "assigned ", a, " for ", host, ", which it does not resolve "
            "to");
    if (by_endpoint) ++(*by_endpoint)[which[0]];
    if (by_address) ++(*by_address)[host + " " + a];
  };
  for (int i = 0; i < steps; ++i) {
    switch (c.weighted({2, 2, 2})) {
      case 0: {
        ns_t d = c.pick({1, 20, 100, 500}) * ms;
        simnet::run(simnet::now() + c.range(0, d));
        c.note("at ", simnet::now() / ms, "ms, ", u.d.changes, " changes");
        break;
      }
      case 1:
        if (u.d.any()) request(nullptr, nullptr);
        break;
      default: {  // whole rounds
        if (!u.d.any()) break;
        size_t resolved = 0;
        int f;
        for (auto& e : to.satellite_endpoints) resolved += !!in_use(e.first, &f);
        int rounds = c.range(1, 4);
        std::map<int, int> by_endpoint;
        std::map<std::string, int> by_address;
        for (size_t k = 0; k < resolved * rounds; ++k)
          request(&by_endpoint, &by_address);
        std::map<std::string, int> want, got;
        for (size_t k = 0; k < to.satellite_endpoints.size(); ++k) {
          auto& e = to.satellite_endpoints[k];
          if (!in_use(e.first, &f)) continue;
          want[lower(e.first) + ":" + std::to_string(e.second)] += rounds;
        }
        for (auto& k : by_endpoint) {
          auto& e = to.satellite_endpoints[k.first];
          got[lower(e.first) + ":" + std::to_string(e.second)] += k.second;
        }
        for (auto& k : want)
          c.equal(got[k.first], k.second,
                  "times " + k.first + " was assigned in " +
                      std::to_string(rounds) + " rounds");
        for (auto& h : hosts) {
          auto v = in_use(h, &f);
          if (!v) continue;
          int lo = INT32_MAX, hi = 0;
          for (auto& a : *v) {
            int n = by_address[h + " " + a];
            lo = std::min(lo, n);
            hi = std::max(hi, n);
          }
          c.check(hi - lo <= 1, "addresses of ", h, " are used unevenly: ", lo,
                  " to ", hi, " times");
        }
        ++rotations;
      }
    }
    check_now();
  }
  if (rotations > 0 && hosts.size() > 1 && u.d.changes > 2) c.nontrivial();
  c.classify("never resolved", !u.d.any());
  c.classify("synchronous answers or many changes", u.d.changes > 4);
}

#ifndef ENDPOINTS_ONLY
// ---------------------------------------------------------------------------
// P22
namespace {
struct Observer : MetricsObserver {
  int64_t sent = 0, dropped = 0, flushes = 0;
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
  void OnFlush() noexcept override { ++flushes; }
};
enum End { Eof, Reset };
struct Session {
  int id;
  std::string address;
  uint16_t port;
  std::vector<std::string> hosts;  // that have this address now (lower case)
  ns_t opened, ended = -1;
  bool healthy;         // opened when nothing goes wrong any more
  bool end_forced = false;  // closed while the recorder is being destroyed
  bool end_in_shutdown = false;
  std::string bytes;    // accepted from the recorder
  char next = 0;        // what the recorder had after them
  bool eof_read = false, error_seen = false, answered = false;
  bool terminated = false;
  ns_t connected_at = 0;      // when the satellite takes the connection
  bool refused = false;       // connect() itself fails
  bool status_ok = false;     // the answer begins with 200
  ns_t blocked_since = -1;    // the satellite took less than it was offered
  ns_t blocked_until = 0;
};
struct Sim {
  pbt::Case* c;
  bool healthy = false, destroying = false, shutting_down = false;
  ns_t blip = 2 * ms;  // the longest healthy delay
  ns_t answer = 2 * ms;  // the longest healthy time to answer a request
  ns_t retry = 0, write_timeout = 0;
  std::vector<ns_t> slots;  // when a connection may be opened again
  std::string error;
  void fail(const std::string& e) {
    if (error.empty()) error = e;
  }
  std::vector<std::shared_ptr<Session>> sessions;
};
Sim* sim = nullptr;

bool ends_with(const std::string& s, const std::string& e) {
  return s.size() >= e.size() &&
         s.compare(s.size() - e.size(), e.size(), e) == 0;
}

struct Satellite : simnet::Peer {
  std::shared_ptr<Session> s;
  bool faulty;
  ns_t stalled = 0;
  int partials = 0;
  std::vector<std::pair<ns_t, std::string>> reply;
  ns_t end_at = simnet::never;
  End end = Eof;
  bool reset = false, mute = false;
  size_t early_at = SIZE_MAX;  // answer after so many bytes
  int early_kind = 0;

  explicit Satellite(std::shared_ptr<Session> x) : s(std::move(x)) {
    pbt::Case& c = *sim->c;
    faulty = !sim->healthy;
    connected_at = simnet::now() + c.range(0, sim->blip);
    if (!faulty) return;
    switch (c.weighted({12, 2, 2, 1, 1, 1})) {
      case 0: break;
      case 1:
        connect_error = ECONNREFUSED;
        break;
      case 2:
        connect_error = ETIMEDOUT;
        connected_at = simnet::now() + c.range(0, 400) * ms;
        break;
      case 3:
        connected_at = simnet::never;
        break;
      case 4:
        connect_result = ENETUNREACH;
        break;
      default:
        connect_result = 0;
    }
    s->refused = connect_result != 0 && connect_result == ENETUNREACH;
    switch (c.weighted({6, 1, 2, 2})) {
      case 0: break;
      case 1: mute = true; break;
      case 2:
        early_at = c.range(0, 1500);
        early_kind = c.draw(5);
        break;
      default:
        early_at = SIZE_MAX;
        early_kind = c.draw(5);
        respond(early_kind, c.range(0, 500) * ms);
    }
  }
  ns_t start() {
    return std::max(simnet::now(), std::min(connected_at, simnet::never / 2));
  }
  void respond(int kind, ns_t delay) {
    if (s->answered) return;
    s->answered = true;
    pbt::Case& c = *sim->c;
    static const char* text[] = {"HTTP/1.1 200 OK\r\nContent-Length:0\r\n\r\n",
                                 "HTTP/1.1 500 Internal Error\r\n\r\n",
                                 "HTTP/1.1 200 OK\r\n\r\n\r\nbody",
                                 "oops\r\n\r\n", "", ""};
    std::string t = text[kind];
    ns_t at = start() + delay;
    while (!t.empty()) {
      size_t n = c.chance(1, 3) ? c.range(1, t.size()) : t.size();
      reply.emplace_back(at, t.substr(0, n));
      t.erase(0, n);
      at += c.range(0, sim->blip / 4);
    }
    end = kind == 5 ? Reset : Eof;
    end_at = at;
    s->status_ok = kind == 0 || kind == 2;
  }
  long write(const std::string& data) override {
    pbt::Case& c = *sim->c;
    if (data.empty()) return 0;
    s->next = data[0];
    if (reset) return -EPIPE;
    if (simnet::now() < stalled) return -EAGAIN;
    size_t n = data.size();
    bool bad = faulty && !sim->healthy;
    if (!bad && sim->destroying) partials = 3;
    switch (bad ? c.weighted({6, 3, 1, 1, 1}) : c.weighted({4, 1})) {
      case 0: break;
      case 1:
        if (!bad && ++partials > 3) break;
        n = c.range(0, data.size() - 1);
        stalled = simnet::now() + 1 + c.range(0, bad ? 60 * ms : sim->blip);
        break;
      case 2:
        n = 0;
        stalled = simnet::now() + 1 + c.range(0, 60 * ms);
        break;
      case 3:
        n = c.range(0, data.size() - 1);
        stalled = simnet::never;
        break;
      default:
        reset = true;
        s->error_seen = true;
        return c.boolean() ? -EPIPE : -ECONNRESET;
    }
    s->blocked_since = n < data.size() ? simnet::now() : -1;
    s->blocked_until = stalled;
    s->bytes.append(data, 0, n);
    s->next = n < data.size() ? data[n] : 0;
    if (s->bytes.size() >= early_at) respond(early_kind, c.range(0, 5) * ms);
    if (ends_with(s->bytes, "\r\n0\r\n\r\n")) {
      s->terminated = true;
      if (!mute) respond(0, c.range(0, faulty ? sim->blip : sim->answer));
    }
    return n ? static_cast<long>(n) : -EAGAIN;
  }
  ns_t writable_at() override { return reset ? 0 : stalled; }
  long read(char* data, size_t n) override {
    if (!reply.empty()) {
      auto& r = reply.front().second;
      size_t k = std::min(n, r.size());
      memcpy(data, r.data(), k);
      r.erase(0, k);
      if (r.empty()) reply.erase(reply.begin());
      return static_cast<long>(k);
    }
    if (end == Reset) {
      reset = true;
      s->error_seen = true;
      return -ECONNRESET;
    }
    s->eof_read = true;
    return 0;
  }
  ns_t readable_at() override {
    return reply.empty() ? end_at : reply.front().first;
  }
  void refused() override { s->error_seen = true; }
  void woken() override { s->blocked_since = -1; }
  void closed() override {
    ns_t now = simnet::now();
    s->ended = now;
    bool failed = s->error_seen || s->refused ||
                  (s->eof_read && !(s->terminated && s->status_ok));
    sim->slots.push_back(failed ? now + sim->retry : now);
    s->end_forced = sim->destroying;
    s->end_in_shutdown = sim->shutting_down;
  }
};

struct Books {  // what the sessions say
  int64_t delivered = 0, partial_open = 0, partial_closed = 0, reported = 0;
  bool headers_pending = false;
};

void record(StreamRecorder& r, const std::string& name, size_t padding) {
  collector::Span span;
  span.set_operation_name(name);
  if (padding) span.add_tags()->set_string_value(std::string(padding, 'x'));
  std::unique_ptr<ChainedStream> stream{new ChainedStream{}};
  auto header = r.ReserveHeaderSpace(*stream);
  {
    google::protobuf::io::CodedOutputStream out{stream.get()};
    span.SerializeToCodedStream(&out);
    r.WriteFooter(out);
  }
  r.RecordSpan(header, std::move(stream));
}
}  // namespace

#ifdef SIM_OOM
PROPERTY(oom_stream, p.check_memory = true; p.hang_seconds = 30;) {
#else
PROPERTY(stream_recorder, p.check_memory = true; p.hang_seconds = 30;) {
#endif
  UseWorld u;
  Sim s;
  s.c = &c;
#ifdef SIM_OOM
  uint64_t failed = oom::total(), failed_before = 0;
  u.w.before_callback = [&] {
    failed_before = oom::total();
    if (s.healthy || s.destroying || !c.chance(1, 4)) return;
    int64_t at = c.range(0, 3), count = c.boolean() ? 1 : 100;
    oom::state() = oom::State{true, at, count, 0, 0};
  };
  u.w.after_callback = [&] { oom::state().armed = false; };
  u.d.before_callback = u.w.before_callback;
  u.d.after_callback = [&] {
    oom::state().armed = false;
    return oom::total() - failed_before;
  };
#endif
  sim = &s;
  Words seed{c.draw(~0ull)};
  GetRandomNumberGenerator().seed(seed);
  uint64_t other = seed.s;
  simnet::on_takeover = [other] {
    Words w{other};
    GetRandomNumberGenerator().seed(w);
  };
  u.w.shuffle = [&c](int n) { return static_cast<int>(c.draw(n - 1)); };
  u.w.on_socket = [&] {
    return !s.healthy && c.chance(1, 40) ? EMFILE : 0;
  };
  std::set<std::string> hosts_of;  // the endpoints' (lower case)
  u.w.on_connect = [&](const sockaddr* a, socklen_t) {
    auto x = std::make_shared<Session>();
    x->id = static_cast<int>(s.sessions.size());
    x->address = text(a, &x->port);
    x->opened = simnet::now();
    x->healthy = s.healthy;
    for (auto& e : hosts_of) {
      int family;
      auto v = in_use(e, &family);
      bool has = v && std::find(v->begin(), v->end(), x->address) != v->end();
#ifdef SIM_OOM
      has = true;  // an answer may not have been taken in
#endif
      if (has) x->hosts.push_back(e);
    }
    if (x->hosts.empty())
      s.fail("a connection to " + x->address + ", which is no host's address");
    s.sessions.push_back(x);
    auto slot = std::find_if(s.slots.begin(), s.slots.end(),
                             [](ns_t t) { return t <= simnet::now(); });
    if (slot == s.slots.end())
      s.fail("session " + std::to_string(x->id) +
             " was opened before the retry period was over, or is one too many");
    else
      s.slots.erase(slot);
    std::unique_ptr<simnet::Peer> peer{new Satellite{x}};
    x->connected_at = peer->connected_at;
    return peer;
  };
  // --- options
  StreamRecorderOptions ro;
  gen_dns_options(c, ro);
  int conns = c.pick({1, 2, 3, 8});
  ro.num_satellite_connections = conns;
  s.slots.assign(conns, 0);
  ns_t poll = c.pick({5, 1, 10}) * ms;
  ro.polling_period = micro(poll);
  ns_t write_timeout = c.pick({100, 30, 400}) * ms;
  ro.satellite_write_timeout = micro(write_timeout);
  ns_t retry = c.pick({20, 100, 1}) * ms;
  s.retry = retry;
  ro.satellite_failure_retry_period = micro(retry);
  ns_t min_reconnect = c.pick({200, 50, 20}) * ms,
       max_reconnect = min_reconnect + c.pick({0, 50}) * ms;
  ro.min_satellite_reconnect_period = micro(min_reconnect);
  ro.max_satellite_reconnect_period = micro(max_reconnect);
  ns_t graceful = c.pick({50, 100, 300}) * ms;
  ro.satellite_graceful_stream_shutdown_timeout = micro(graceful);
  double threshold = c.pick({0.5, 0.0, 1.0, 0.25});
  ro.early_flush_threshold = threshold;
  if (c.chance(1, 3)) s.answer = graceful / 3;
  LightStepTracerOptions to;
  ns_t period = c.pick({50, 200, 500, 10}) * ms;
  // no reports unless the buffer fills or is flushed
  bool never = c.chance(1, 12);
  to.reporting_period =
      never ? std::chrono::steady_clock::duration::max()
            : std::chrono::duration_cast<std::chrono::steady_clock::duration>(
                  std::chrono::nanoseconds{period});
  size_t capacity = c.chance(1, 20) ? 0 : c.pick({20, 1, 2, 5, 100});
  to.max_buffered_spans = capacity;
  to.access_token = "token";
  to.satellite_endpoints = gen_endpoints(c);
  auto endpoints = to.satellite_endpoints;
  for (auto& e : endpoints) hosts_of.insert(lower(e.first));
  auto* obs = new Observer;
  to.metrics_observer.reset(obs);
  ns_t dns_delay = c.pick({1, 50}) * ms;
  gen_script(c, dns_delay, &s.healthy);
  bool faults = !c.chance(1, 4);
  s.healthy = !faults;
  c.note(conns, " connections, poll ", poll / ms, "ms, period ", never ? -1 : period / ms,
         "ms, write timeout ", write_timeout / ms, "ms, retry ", retry / ms,
         "ms, reconnect ", min_reconnect / ms, "-", max_reconnect / ms,
         "ms, graceful ", graceful / ms, "ms, capacity ", capacity,
         faults ? "" : ", no faults");
  std::string log;
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  if (c.chance(1, 20)) logger.set_level(LogLevel::debug);

  size_t host_width = 0;
  for (auto& e : endpoints) host_width = std::max(host_width, e.first.size());
  sim_driver = pthread_self();
  std::unique_ptr<StreamRecorder> recorder{
      new StreamRecorder{logger, std::move(to), std::move(ro)}};
  auto release = [&] { simnet::dispatcher().post(); };
  struct Guard {
    std::unique_ptr<StreamRecorder>& r;
    ~Guard() {
      sim_waits = false;
      if (r) {
        sim->destroying = true;
        if (world->error.empty()) world->error = "abandoned";
        simnet::dispatcher().post();
        r.reset();
      }
      sim = nullptr;
      simnet::on_takeover = nullptr;
    }
  } guard{recorder};
  sim_waits = true;

  // --- the books
  int64_t recorded = 0, refused = 0;
  std::map<std::string, int> count_of;
  auto http = [&](Session& x, const std::string& host) {
    return "POST /api/v2/reports HTTP/1.1\r\nConnection:close\r\n"
           "Content-Type:application/octet-stream\r\n"
           "Transfer-Encoding:chunked\r\nHost:" +
           std::string(host_width - host.size(), ' ') + host + "\r\n\r\n";
  };
  auto decode = [&](Session& x) {
    http_session::Decoded d;
    std::string first_error;
    for (auto& e : endpoints) {
      bool serves = false;  // host names do not depend on case
      for (auto& f : endpoints)
        serves |= f.second == x.port && lower(f.first) == lower(e.first) &&
                  std::count(x.hosts.begin(), x.hosts.end(), lower(f.first));
      if (!serves) continue;
      d = http_session::decode(x.bytes, http(x, e.first));
      if (d.error.empty()) return d;
      if (first_error.empty() ||
          first_error.compare(0, 20, "wrong request header") == 0)
        first_error = d.error;
    }
    c.fail("session ", x.id, " to ", x.address, ":", x.port, ": ",
           first_error.empty() ? "not an endpoint's port" : first_error, " in ",
           pbt::Case::quote(x.bytes, 600));
  };
  auto span_partial = [](const Session& x, const http_session::Decoded& d) {
    if (!d.header_complete || d.partial.empty()) return false;
    if (d.partial.size() == 1 && d.partial[0] == '0') return x.next != '\r';
    return d.partial.compare(0, 2, "0\r") != 0;
  };
  auto balance = [&](bool final) {
    c.check(u.w.error.empty(), u.w.error);
    c.check(u.d.error.empty(), u.d.error);
    Books b;
    std::set<std::string> seen;
    for (auto& x : s.sessions) {
      auto d = decode(*x);
      std::string last;
      for (auto& n : d.spans) {
        c.check(seen.insert(n).second, "span ", n, " was sent twice");
        c.check(count_of.count(n), "span ", n, " was never recorded");
        c.check(last < n, "spans out of order in session ", x->id);
        last = n;
        ++b.delivered;
      }
      c.equal(d.terminated, x->terminated, "session terminated");
      if (d.header_complete) {
        c.equal(d.head.auth().access_token(), std::string("token"), "token");
        b.reported += d.drops();
      } else if (x->ended < 0) {
        b.headers_pending = true;
      }
      if (span_partial(*x, d)) ++(x->ended < 0 ? b.partial_open
                                               : b.partial_closed);
    }
    c.equal(obs->sent, b.delivered, "spans counted as sent");
    c.equal(obs->dropped, refused + b.partial_closed,
            "spans counted as dropped");
    c.check(b.reported <= obs->dropped, "reported ", b.reported,
            " dropped spans of ", obs->dropped);
    if (recorder) {
      c.equal(static_cast<int64_t>(recorder->span_buffer().size()) +
                  b.delivered + b.partial_open + b.partial_closed + refused,
              recorded, "spans accounted for");
      if (final && !b.headers_pending)
        c.equal(b.reported + recorder->metrics().num_dropped_spans(),
                obs->dropped, "dropped spans reported or to be reported");
    }
    c.check(s.error.empty(), s.error);
    int open = 0;
    ns_t now = simnet::now();
    for (auto& x : s.sessions) {
      open += x->ended < 0;
      if (x->ended >= 0) continue;
      ns_t since = x->connected_at > now ? x->opened : x->blocked_since;
      if (since >= 0 && !s.destroying)
        c.check(now - since <= write_timeout + 1, "session ", x->id,
                " has not been writable for ", (now - since) / ms, "ms");
    }
    c.check(open <= conns, open, " sessions are open");
    c.equal<size_t>(open, u.w.sockets.size(), "open sockets");
    return b;
  };
  int serial = 0;
  auto add = [&](int n) {
    for (int i = 0; i < n; ++i) {
      char name[16];
      snprintf(name, sizeof name, "s%06d", serial++);
      size_t before = recorder->span_buffer().size();
      bool room = before < capacity;
      int64_t dropped = obs->dropped;
      record(*recorder, name, c.pick({0, 3, 50, 300, 900}));
      ++recorded;
      count_of[name] = 1;
      refused += !room;
      c.equal(obs->dropped - dropped, room ? 0 : 1,
              room ? "span refused with room in the buffer"
                   : "span accepted without room in the buffer");
    }
    c.note("record ", n);
  };
  using Timeout = std::chrono::system_clock::duration;
  auto to_timeout = [](ns_t t) {
    return t == INT64_MAX
               ? Timeout::max()
               : std::chrono::duration_cast<Timeout>(std::chrono::nanoseconds{t});
  };
  auto flush = [&](ns_t timeout, const char* why) {
    ns_t t = simnet::now();
    bool r = recorder->FlushWithTimeout(to_timeout(timeout));
    c.note("flush(", timeout / ms, "ms)", r ? " true" : " false", " at ",
           simnet::now() / ms);
    if (r)
      c.check(recorder->span_buffer().size() == 0,
              "flush returned true with spans in the buffer", why);
    else
      c.check(simnet::now() - t >= timeout, "flush gave up early", why);
    return r;
  };
  auto pass = [&](ns_t t) { simnet::run(simnet::now() + t); };
  int forks = 0;
  auto rate = [&] {
    // A session that the other side ends is followed by a new one no earlier
    // than the retry period; one that ends regularly has lasted a while.
    uint64_t most = conns * (2 + forks + simnet::now() / std::min(retry, min_reconnect));
    c.check(u.w.opened <= most, u.w.opened, " connections in ",
            simnet::now() / ms, "ms");
  };

  // --- histories
  auto refork = [&](bool child) {
    c.note(child ? "fork (child)" : "fork (parent)");
    ++forks;
    s.destroying = true;
    release();
    recorder->PrepareForFork();
    s.destroying = false;
    s.slots.assign(conns, 0);
    c.check(u.w.error.empty(), u.w.error);
    c.check(u.w.sockets.empty(), "sockets are open across a fork");
    c.check(u.w.bases.empty(), "an event loop is alive across a fork");
    auto b = balance(false);
    c.equal(b.reported + recorder->metrics().num_dropped_spans(), obs->dropped,
            "before a fork, dropped spans reported or to be reported");
    u.w.timers.clear();
    u.d.lookups.clear();
    if (child) {
      // what follows is another process
      recorded = refused = 0;
      s.sessions.clear();
      obs->sent = obs->dropped = 0;
      count_of.clear();
      recorder->OnForkedChild();
      c.check(recorder->empty(), "the child keeps the parent's spans");
      c.equal<int64_t>(recorder->metrics().num_dropped_spans(), 0,
                       "the child's dropped spans");
      c.check(recorder->FlushWithTimeout(std::chrono::milliseconds{0}),
              "the child waits for the parent's spans");
    } else {
      recorder->OnForkedParent();
    }
  };
  int steps = c.range(1, 14);
  bool flushed = false;
  for (int i = 0; i < steps; ++i) {
    switch (c.weighted({4, 5, 2, 1})) {
      case 0: add(c.pick({1, 2, 5, 12})); break;
      case 1: pass(c.pick({5, 30, 100, 400}) * ms * c.range(1, 4) / 4); break;
      case 2: flushed |= flush(c.pick({0, 10, 60, 300}) * ms, ""); break;
      default:
        if (forks < 2) refork(c.chance(1, 3));
    }
    balance(false);
    rate();
  }
  // --- nothing goes wrong any more
  int good = c.weighted({3, 1});
  if (good == 0) {
    s.healthy = true;
    ns_t recovery = max_reconnect + graceful + write_timeout + retry + 50 * ms;
    if (!u.d.any_known()) recovery += u.d.retry + 2 * dns_delay;
    recovery += 2 * dns_delay;
    pass(recovery);
    c.note("healthy at ", simnet::now() / ms);
    balance(false);
    auto takes_spans = [&](Session& x, ns_t until) {
      return x.ended < 0 && x.healthy && x.connected_at < simnet::now() &&
             !x.terminated && !x.answered &&
             x.opened + min_reconnect > simnet::now() + until;
    };
    auto live = [&] {
      int n = 0;
      for (auto& x : s.sessions) n += x->ended < 0 && x->healthy;
      return n;
    };
    c.equal(live(), conns, "connections after the satellites recovered");
    int64_t lost = obs->dropped - refused;
    int rounds = c.range(1, 3);
    for (int i = 0; i < rounds; ++i) {
      int n = c.pick({1, 3, 10});
      add(n);
      ns_t soon = poll + 15 * s.blip;
      bool ready = false;
      for (auto& x : s.sessions)
        ready |= takes_spans(*x, soon);
      if (!ready) soon += graceful + 2 * s.blip;
      switch (c.draw(2)) {
        case 0:
          if (c.chance(1, 8)) {
            ns_t t = simnet::now();
            c.check(flush(INT64_MAX, ""), "a flush without a limit failed");
            c.check(simnet::now() - t <= soon, "a flush took too long");
            break;
          }
          c.check(flush(soon, ""), "flush failed with healthy satellites");
          break;
        case 1:
          if (never) {
            pass(c.range(0, 300) * ms);
            break;
          }
          pass(period + soon + (ready ? graceful + 2 * s.blip : 0));
          c.check(recorder->empty(), "spans waited longer than the period");
          break;
        default:
          if (static_cast<double>(std::min<size_t>(n, capacity)) >
              static_cast<double>(capacity) * threshold) {
            pass(soon);
            c.check(recorder->empty(), "a full buffer was not flushed early");
          } else {
            pass(c.range(0, 300) * ms);
          }
      }
      balance(false);
    }
    if (never)
      c.check(flush(max_reconnect + graceful, ""),
              "flush failed with healthy satellites");
    pass(2 * (max_reconnect + graceful));
    auto b = balance(true);
    c.equal(obs->dropped - refused, lost, "spans lost with healthy satellites");
    c.equal(live(), conns, "connections to healthy satellites");
    c.check(recorder->empty(), "spans left in the buffer");
    int complete = 0;
    for (auto& x : s.sessions) {
      if (!x->healthy || x->ended < 0 || x->end_forced) continue;
      c.check(x->terminated && x->eof_read, "session ", x->id,
              " with a healthy satellite was cut short at ", x->ended / ms);
      c.check(x->ended - x->opened >= min_reconnect, "session ", x->id,
              " ended early");
      ++complete;
    }
    for (auto& x : s.sessions)
      if (x->ended < 0)
        c.check(simnet::now() - x->opened <= max_reconnect + graceful,
                "session ", x->id, " is never renewed");
    c.check(complete >= conns, "sessions are not renewed");
    (void)b;
  }
  // --- the end
  bool shut = c.chance(1, 2);
  if (shut) {
    s.shutting_down = true;
    if (c.boolean()) add(2);
    bool sure = c.chance(2, 3);
    ns_t timeout = sure ? graceful + 2 * poll + ms : c.range(0, 20) * ms;
    ns_t t = simnet::now();
    uint64_t before = u.w.opened;
    bool unlimited = sure && c.chance(1, 8);
    bool r = recorder->ShutdownWithTimeout(
        to_timeout(unlimited ? INT64_MAX : timeout));
    if (unlimited)
      c.check(simnet::now() - t <= timeout, "shutdown took too long");
    c.note("shutdown(", timeout / ms, "ms)", r ? " true" : " false", " at ",
           simnet::now() / ms);
    balance(false);
    if (r) {
      c.check(u.w.sockets.empty(), "connections are open after shutdown");
    } else {
      c.check(simnet::now() - t >= timeout, "shutdown gave up early");
      c.check(!sure, "shutdown did not finish in the time it has");
      pass(graceful + 2 * poll + ms);
    }
    pass(c.pick({0, 1000}) * ms);
    balance(false);
    c.check(u.w.sockets.empty(), "connections are open after shutdown");
    c.check(recorder->ShutdownWithTimeout(std::chrono::milliseconds{0}),
            "shutting down again fails");
    (void)before;
    if (good == 0)
      for (auto& x : s.sessions)
        if (x->healthy && x->end_in_shutdown)
          c.check(x->terminated && x->eof_read, "session ", x->id,
                  " was cut short by the shutdown");
  }
  bool expect_sent = good == 0 && !shut;
  if (expect_sent && c.boolean()) add(2);
  bool ready = false;  // some session can take the spans at once
  std::vector<Session*> closable;
  if (expect_sent)
    for (auto& x : s.sessions) {
      if (x->ended >= 0 || x->blocked_until > simnet::now()) continue;
      if (x->connected_at >= simnet::now() || x->answered) continue;
      if (x->opened + min_reconnect <= simnet::now() + 2 * poll) continue;
      closable.push_back(x.get());
      ready |= !x->terminated;
    }
  s.destroying = true;
  release();
  sim_waits = false;
  int64_t dropped = 0, sent = 0;
  // the observer dies with the recorder
  recorder->PrepareForFork();
  for (auto x : closable)
    c.check(x->terminated, "session ", x->id, " was not closed cleanly");
  if (ready)
    c.check(recorder->empty(), "spans were not sent before the end");
  sent = obs->sent;
  dropped = obs->dropped;
  c.check(u.w.error.empty(), u.w.error);
  c.check(u.w.sockets.empty(), "sockets left open");
  c.check(u.w.bases.empty(), "event loop left behind");
  balance(false);
  recorder.reset();
  (void)sent;
  (void)dropped;
  int faulty = 0;
  for (auto& x : s.sessions) faulty += !x->healthy;
#ifdef SIM_OOM
  failed = oom::total() - failed;
  c.classify("an allocation failed", failed > 0);
  if (failed > 0) c.nontrivial();
#else
  if (recorded > 2 && s.sessions.size() > static_cast<size_t>(conns) &&
      (!faults || faulty > 1))
    c.nontrivial();
#endif
  c.classify("faults", faults);
  c.classify("forked", forks > 0);
  c.classify("shut down", shut);
  c.classify("flush succeeded", flushed);
  c.classify("recovered", good == 0);
}

// ---------------------------------------------------------------------------
// P08: the time spans get follows the system clock
#ifndef SIM_OOM
namespace {
struct Unreachable : simnet::Peer {
  Unreachable() { connect_error = ECONNREFUSED; }
  long write(const std::string&) override { return -EPIPE; }
  ns_t writable_at() override { return 0; }
  long read(char*, size_t) override { return -ECONNREFUSED; }
  ns_t readable_at() override { return 0; }
};
}  // namespace
PROPERTY(recorder_clock, p.check_memory = true; p.hang_seconds = 30;) {
  struct Base {  // the system clock is somewhere else
    int64_t was = vclock::system_base;
    ~Base() { vclock::system_base = was; }
  } restore;
  UseWorld u;
  Sim s;
  s.c = &c;
  sim = &s;
  Words seed{c.draw(~0ull)};
  GetRandomNumberGenerator().seed(seed);
  uint64_t other = seed.s;
  simnet::on_takeover = [other] {
    Words w{other};
    GetRandomNumberGenerator().seed(w);
  };
  u.w.shuffle = [&c](int n) { return static_cast<int>(c.draw(n - 1)); };
  u.w.on_connect = [&](const sockaddr*, socklen_t) {
    return std::unique_ptr<simnet::Peer>{new Unreachable};
  };
  StreamRecorderOptions ro;
  gen_dns_options(c, ro);
  ro.num_satellite_connections = c.range(1, 2);
  ro.polling_period = micro(c.pick({5, 1, 10}) * ms);
  ns_t period = c.pick({5, 50, 300, 2000}) * ms;
  ro.timestamp_delta_period = micro(period);
  LightStepTracerOptions to;
  // rarely more often than the time is refreshed
  to.reporting_period =
      std::chrono::duration_cast<std::chrono::steady_clock::duration>(
          std::chrono::nanoseconds{c.pick({500, 3, 5000}) * ms});
  to.max_buffered_spans = size_t{10};
  to.satellite_endpoints = gen_endpoints(c);
  gen_script(c, 50 * ms, &s.healthy);
  bool fresh = c.boolean();
  if (!fresh) s.healthy = true;
  c.note("refreshed every ", period / ms, "ms");
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  sim_driver = pthread_self();
  // (since when, the difference of the clocks)
  std::vector<std::pair<ns_t, int64_t>> history;
  auto step_to = [&](int64_t base) {
    vclock::system_base = base;
    history.emplace_back(simnet::now(), base - vclock::steady_base);
  };
  step_to(vclock::system_base + c.range(-1000000000, 1000000000));
  std::unique_ptr<StreamRecorder> recorder{
      new StreamRecorder{logger, std::move(to), std::move(ro)}};
  struct Guard {
    std::unique_ptr<StreamRecorder>& r;
    ~Guard() {
      sim_waits = false;
      if (r) {
        simnet::dispatcher().post();
        r.reset();
      }
      sim = nullptr;
      simnet::on_takeover = nullptr;
    }
  } guard{recorder};
  sim_waits = true;
  ns_t made = simnet::now();  // a new event loop reads the clocks at once
  bool stepped = false, seen_new = false, running = true;
  auto check = [&] {
    c.check(u.w.error.empty(), u.w.error);
    ns_t now = simnet::now();
    ns_t since = std::max(made, now - period - ms);
    if (!running) since = now;
    int64_t got = recorder->ComputeSystemSteadyTimestampDelta();
    bool ok = false;
    for (size_t i = 0; i < history.size(); ++i)
      if (history[i].second == got &&
          (i + 1 == history.size() || history[i + 1].first >= since))
        ok = true;
    c.check(ok, "at ", now, "ns the clocks differ by ", history.back().second,
            " since ", history.back().first, "ns, the recorder says ", got);
    seen_new |= stepped && got == history.back().second;
    std::chrono::steady_clock::time_point steady{
        std::chrono::nanoseconds{vclock::steady_now() + c.range(-1000, 1000)}};
    auto system = recorder->ComputeCurrentSystemTimestamp(steady);
    c.equal<int64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(
                         system.time_since_epoch()).count() -
                         steady.time_since_epoch().count(),
                     got, "system time minus steady time");
  };
  int steps = c.range(1, 12);
  for (int i = 0; i < steps; ++i) {
    switch (c.weighted({4, 4, 1})) {
      case 0: {
        // by less than a millisecond up to years, forwards or backwards
        static const int64_t by[] = {1, 1000, 1000000, 1000000000,
                                     3600000000000ll, 100000000000000000ll};
        int64_t d = c.range(1, 9) * by[c.draw(5)];
        if (c.boolean()) d = -d;
        if (vclock::system_base + d < 0) d = -d;
        step_to(vclock::system_base + d);
        stepped = true;
        c.note("at ", simnet::now(), "ns the clock steps by ", d, "ns");
        break;
      }
      case 1:
        simnet::run(simnet::now() +
                    c.pick({1, 10, 100, 1000}) * ms * c.range(1, 8) / 4);
        break;
      default:
        simnet::dispatcher().post();
        recorder->PrepareForFork();
        running = false;
        check();
        u.w.timers.clear();
        u.d.lookups.clear();
        if (c.boolean())
          recorder->OnForkedChild();
        else
          recorder->OnForkedParent();
        running = true;
        made = simnet::now();
        c.note("fork");
    }
    check();
  }
  simnet::run(simnet::now() + period + ms);
  check();
  c.equal<int64_t>(recorder->ComputeSystemSteadyTimestampDelta(),
                   history.back().second, "difference of the clocks");
  if (stepped && history.size() > 2) c.nontrivial();
}
#endif
#endif
